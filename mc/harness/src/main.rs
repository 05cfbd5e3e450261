mod c01;
mod c06;
mod c09;
mod c10;
mod c11;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
mod c34;
mod common;
mod disk;
mod query;

type Run = fn(&'static common::Ctx);
const MC: &str = "model_checking";
/// (property, check, level, what is enumerated)
const CHECKS: &[(&str, Run, &str, &str)] = &[
    ("C01", c01::snapshots, MC, "every sequence of begin, insert, update, delete, commit and abort by 2-4 transactions of all isolation levels on 1-2 rows, up to the depth given per part; what every running transaction reads and scans compared after every step with a reference that keeps all versions of every row, and what transactions that begin at the end see"),
    ("C02", c01::schedules, MC, "every schedule within the preemption bound of 2-3 threads running transactions (updates, deletes, inserts, commit or abort) against readers and scans of several rows, for ten programs; reads, scans and the final rows judged by the transactions' own timestamps"),
    ("C03", c01::aborts, MC, "every sequence of begin, insert, update (short and long rows, in a page that fills up), delete, commit and abort by 2-3 transactions; rows, scans and bookkeeping compared after every step with a reference that keeps all versions of every row; every schedule of an aborting writer against readers"),
    ("C04", c01::conflicts, MC, "every sequence of begin, insert, update, delete, commit and abort by 2-3 writers on 1-2 rows: which changes are allowed, and what is read, compared after every step with a reference that keeps all versions of every row; every schedule of two writers of one row"),
    ("C05", c01::collection, MC, "every sequence of begin, insert, update, delete, commit, abort and garbage collection by 3-4 transactions; all reads, scans, the watermark and what is left at the end compared after every step with a reference that keeps all versions of every row; every schedule of collection against an old reader and a writer"),
    ("C06", c06::grants, MC, "every sequence of lock, unlock and release operations by 2-3 transactions on one table and one row, compared step by step with a reference lock table; every schedule of 2-3 locking threads within the preemption bound"),
    ("C07", c06::deadlock, MC, "every waits-for graph of 3 and 4 transactions; every sequence of lock/unlock/release/detection-pass/check operations by 2-3 transactions over 2-3 tables"),
    ("C08", c06::two_phase, MC, "every sequence of lock and unlock operations of one transaction on two tables and a row, per isolation level"),
    ("C09", c09::run, MC, "every sequence of insert, update, delete, commit, abort, page flush and crash operations (with the whole log, or its last record lost or cut short) by two transactions on 1-2 table pages, up to the depth given per part, each ending in two further crashes and renewed use; after every recovery all rows compared with the last committed contents"),
    ("C10", c10::run, MC, "every record of every kind over the listed field values encoded and decoded; every log of up to the given number of records cut after every byte and read from every record; every sequence of appends (all kinds, two transactions), log thread turns, shut-downs and failing disk operations, up to the depth given per part, the file compared after each step"),
    ("C11", c11::contents, MC, "every sequence of create, fetch, write, pin, release, flush, delete, batch load and restart operations on a pool of 1-3 frames and up to four pages, up to the depth given per part; contents, pins and frames compared with a map after every step"),
    ("C12", c11::schedules, MC, "every schedule within the preemption bound of 2-3 threads fetching, changing, creating, flushing and deleting pages in a pool smaller than the pages; every successful change must be in the final contents, and no frame or pin may be lost"),
    (
    "C13",
    c13::run,
    MC,
    "every sequence of access/evictable/evict/remove operations over 2-4 frames up to the depth given per part, from an empty and from a full replacer, k=1..3, each followed by draining; compared step by step with a reference policy",
    ),
    ("C14", c14::run, MC, "every sequence of insert/get/remove/touch/pop/peek/clear operations on each cache policy for capacities 0-3 and one more key than fits, from an empty and from a full cache, each drained at the end; every sequence of store/get operations on the three-tier cache"),
    ("C15", c15::run, MC, "every sequence of write/batch write/read/batch read/flush/shutdown+reopen/crash+reopen operations over three pages for each of eight configurations (cache, staging buffer, flush thresholds, work stealing, compression, durability), then every page read back before and after a clean restart; filling the staging buffer past its size"),
    ("C16", c16::run, MC, "every sequence of operations on the I/O request queue, the two task schedulers, the completion tracker with waiters polled after every step, and the I/O engine (log appends, writes and reads, page reads and writes, several at once, stop and start), up to the depth given per part, compared with a reference after every step"),
    ("C17", c17::run, MC, "every sequence of insert, update, delete, commit and restart operations on a table heap with rows of four sizes (pool of 3 or 20 frames), and every sequence of fill/grow/shrink operations on one page; all rows, a full scan and a reloaded copy compared with a map after every step"),
    ("C18", c18::run, MC, "every list of up to 3-4 elements over domains of integers of all widths, texts and decimals with NULLs under every comparison with ANY, SOME and ALL, IN and NOT IN; lists of up to 5-8 under every index and range around them and at the limits of the integer types; every document of depth 2 under every path of up to 3 keys; every pair of values in arrays, structs, subquery results, conversions, filters; number literals around every type limit; as constants, columns and columns of either side of a join"),
    ("C19", c19::run, MC, "every sequence of insert and remove operations (plain and latch-crabbing) on the disk B+ tree for orders 3-5 from empty and multi-level trees, and every insertion order followed by every removal order of n keys; all keys, the traversal, scans, the key count and the tree's own validation compared after every step"),
    ("C20", c20::run, MC, "every sequence of insert/delete operations on the in-memory B+ tree for orders 3-5 with unique and duplicate keys, from empty and from multi-level trees, and every insertion order followed by every deletion order of n keys; full, range and point scans compared with a sorted set after every step, iterators (draining, reset, seek) at the end"),
    ("C21", c21::run, MC, "every sequence of insert and remove operations on the disk hash table for directory depths 0-4 and bucket sizes 1-3 over keys chosen by their low hash bits, and every insertion order followed by removal orders; all keys looked up after every step"),
    ("C22", c22::run, MC, "every pair and triple of a universe of boundary values of all 20 types: comparisons, order, equality, hash, arithmetic, least/greatest; every value cast to every type"),
    ("C24", c24::run, MC, "every expression tree of the stated shapes over columns and boundary constants, evaluated on every row of boundary values, alone and split over a join"),
    ("C25", c25::run, MC, "every pair of tables of up to 3 (thorough 4) rows from a small domain with NULLs and duplicates, under every join type, condition and implementation; joins of three tables"),
    ("C26", c26::run, MC, "every table of up to 4 (thorough 5) rows over domains of several types with NULLs, duplicates and extreme values, under every pipeline of one, two and three operators"),
    ("C27", c27::run, MC, "every table of up to 4 (thorough 5) rows with NULLs and duplicates under every index and a few hundred conditions, and every pair of changes by committed, aborted and running transactions before and after the index is made"),
    ("C28", c28::run, MC, "every history of 4 (thorough 5) inserts, updates, deletes, commits and aborts out of 14 on a table of two rows, seen by its transaction, a new one and an older snapshot after every step; every source of up to 3 (4) columns inserted into a table of four; every history of 3 (5) changes to a parent and a child table"),
    ("C29", c29::run, MC, "every pipeline of up to three of 20 logical operators over every small table with no index or one on each column, and over joins of two tables under 12 conditions and 4 join types, not optimised and optimised with every set of options, converted and executed"),
    ("C30", c30::run, MC, "every history up to a depth of creating and using databases, creating tables (with and without foreign keys, twice, as statement) and indexes, inserting, aborting and rebuilding from the system tables, from an empty catalog and from catalogs with tables in two databases and tables of several pages"),
    ("C33", c33::run, MC, "every day of 2019-2024 and around every month of years about centuries, leap years, 1970 and 2038 (thorough: every day of 1890-2119 and around every month of 1602-2399) at three times under every field of DATE_TRUNC, DATE_PART and EXTRACT, date arithmetic and DATE, TIME and TIMESTAMP literals; every combination of parts in and around their ranges under MAKE_DATE, MAKE_TIME and MAKE_TIMESTAMP; intervals; every change of the offset of four time zones; as constants, columns and columns of either side of a join"),
    ("C34", c34::run, MC, "every byte string of up to 5 (thorough 6) of eight telling bytes and patterned pages under each algorithm; every history of 5 (6) writes, drains and restores of a staging buffer and of writes, cleanups and passing time of the coalescing engine, from empty and from filled ones; every set of 10 (13) neighbouring pages; every durability level, policy, pair of batches and failing sync; every offset, size, memory position and alignment around the boundaries for direct and buffered file access"),
    ("C32", c32::run, MC, "all interleavings within the preemption bound of whole statements of two or three sessions: queries through the optimizer (which makes indexes), inserts, updates, deletes, CREATE TABLE, CREATE INDEX"),
    ("C23", c23::run, MC, "every value of the boundary universe of every type and nested; every row of up to three of them, written into every buffer size and read from every prefix; every column definition over all types, flags, defaults, lengths and references; every schema of up to three columns over four types and five names, every selection, name and pair of them; row locations around every boundary; requests and responses holding every value"),
    ("C31", c31::run, MC, "every text up to 4-6 characters of an alphabet with multi-byte characters and NULL under SUBSTRING, OVERLAY, POSITION, TRIM, UPPER, LOWER, SIMILAR TO and regular expressions with every small and extreme position and length; CEIL and FLOOR of every decimal of a range at every scale and of time stamps around every month from 1970 to 2197; as constants, columns and columns of either side of a join"),
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = a.get(2).map(|s| s.as_str()).unwrap_or("quick");
    let Some((_, run, level, rule)) = CHECKS.iter().find(|c| c.0 == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    common::install_panic_hook();
    let ctx: &'static common::Ctx = Box::leak(Box::new(common::Ctx::new(id, tier)));
    common::watchdog(ctx, level, rule);
    run(ctx);
    ctx.finish(level, rule);
}
