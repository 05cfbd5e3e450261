//! C15: the disk manager against a map from page to last written content, across its configurations.
use crate::common::*;
use crate::disk;
use ferrite::storage::disk::async_disk::config::{DiskManagerConfig, DurabilityLevel, FsyncPolicy};
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use std::collections::{BTreeMap, BTreeSet};

const PAGE: usize = 4096;
const OPS: &[&str] = &[
    "write 0 A", "write 0 B", "write 1 A", "write 2 C", "batch write 0=B 1=D", "batch write 1=A 1=D 2=A", "read 0", "read 1", "batch read 2 0 1", "batch read 0 0",
    "flush", "force flush", "reopen", "crash", "write 0 too short", "read 0 five times",
];
fn page(c: u8) -> Vec<u8> {
    let mut v = vec![c; PAGE];
    v[PAGE - 1] = c.wrapping_mul(3);
    v
}
struct Sys {
    scratch: Scratch,
    cfg: DiskManagerConfig,
    mgr: Option<AsyncDiskManager>,
    last: BTreeMap<u64, u8>,
    /// contents a page may have after a crash (0: never written)
    maybe: BTreeMap<u64, BTreeSet<u8>>,
}
impl Sys {
    fn new(cfg: DiskManagerConfig) -> Self {
        let scratch = if cfg.direct_io { Scratch::on_disk("c15") } else { Scratch::new("c15") };
        let mgr = Some(disk::open(&scratch, cfg.clone()));
        Sys { scratch, cfg, mgr, last: BTreeMap::new(), maybe: (0..3).map(|p| (p, BTreeSet::from([0]))).collect() }
    }
    fn m(&self) -> &AsyncDiskManager {
        self.mgr.as_ref().unwrap()
    }
    fn wrote(&mut self, p: u64, c: u8) {
        self.last.insert(p, c);
        self.maybe.get_mut(&p).unwrap().insert(c);
    }
    fn write(&mut self, p: u64, c: u8) -> Result<(), String> {
        disk::block_on(self.m().write_page(p, page(c))).map_err(|e| format!("writing page {p} failed: {e}"))?;
        self.wrote(p, c);
        Ok(())
    }
    fn batch(&mut self, b: &[(u64, u8)]) -> Result<(), String> {
        let pages = b.iter().map(|&(p, c)| (p, page(c))).collect();
        disk::block_on(self.m().write_pages_batch(pages)).map_err(|e| format!("batch write failed: {e}"))?;
        for &(p, c) in b {
            self.wrote(p, c);
        }
        Ok(())
    }
    fn same(&self, p: u64, got: Result<Vec<u8>, String>) -> Result<(), String> {
        let want = self.last.get(&p).copied();
        match (got, want) {
            // a page that was never written may not exist yet
            (Err(_), None) => Ok(()),
            (Err(e), Some(c)) => Err(format!("reading page {p} failed ({e}); content {c} was written")),
            (Ok(d), w) if d == page(w.unwrap_or(0)) => Ok(()),
            (Ok(d), w) => Err(format!("page {p} reads as content {} ({} bytes), last written {w:?}", d.first().copied().unwrap_or(0), d.len())),
        }
    }
    fn read(&self, p: u64) -> Result<(), String> {
        self.same(p, disk::block_on(self.m().read_page(p)).map_err(|e| e.to_string()))
    }
    fn read_batch(&self, ps: &[u64]) -> Result<(), String> {
        match disk::block_on(self.m().read_pages_batch(ps.to_vec())) {
            Ok(v) => {
                if v.len() != ps.len() {
                    return Err(format!("a batch read of {} pages returned {}", ps.len(), v.len()));
                }
                ps.iter().zip(v).try_for_each(|(p, d)| self.same(*p, Ok(d)))
            },
            Err(_) if ps.iter().any(|p| !self.last.contains_key(p)) => Ok(()),
            Err(e) => Err(format!("batch read of written pages {ps:?} failed: {e}")),
        }
    }
    fn durable(&mut self) {
        for (p, s) in self.maybe.iter_mut() {
            *s = BTreeSet::from([self.last.get(p).copied().unwrap_or(0)]);
        }
    }
    fn reopen(&mut self) {
        self.mgr = None;
        self.mgr = Some(disk::open(&self.scratch, self.cfg.clone()));
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        match op {
            0 => self.write(0, 1)?,
            1 => self.write(0, 2)?,
            2 => self.write(1, 1)?,
            3 => self.write(2, 3)?,
            4 => self.batch(&[(0, 2), (1, 4)])?,
            5 => self.batch(&[(1, 1), (1, 4), (2, 1)])?,
            6 => self.read(0)?,
            7 => self.read(1)?,
            8 => self.read_batch(&[2, 0, 1])?,
            9 => self.read_batch(&[0, 0])?,
            10 => {
                disk::block_on(self.m().flush()).map_err(|e| format!("flush failed: {e}"))?;
                self.durable();
            },
            11 => {
                disk::block_on(self.m().force_flush_all()).map_err(|e| format!("force flush failed: {e}"))?;
                self.durable();
            },
            12 => {
                let m = self.mgr.as_mut().unwrap();
                disk::block_on(m.shutdown()).map_err(|e| format!("shutdown failed: {e}"))?;
                self.durable();
                self.reopen();
            },
            13 => {
                // the process is gone; what the database file holds now is what a new one finds
                self.reopen();
                let mut now = BTreeMap::new();
                for (p, s) in &self.maybe {
                    let c = match disk::block_on(self.m().read_page(*p)) {
                        Err(_) => 0,
                        Ok(d) if d == vec![0; PAGE] => 0,
                        Ok(d) if d == page(d[0]) => d[0],
                        Ok(_) => return Err(format!("page {p} holds a mixture of contents after a restart")),
                    };
                    if !s.contains(&c) {
                        return Err(format!("page {p} has content {c} after a restart without a flush; possible are {s:?}"));
                    }
                    if c != 0 {
                        now.insert(*p, c);
                    }
                }
                self.last = now;
                self.durable();
            },
            14 => {
                if disk::block_on(self.m().write_page(0, vec![9; PAGE - 1])).is_ok() {
                    return Err("a write of less than a page was accepted".into());
                }
            },
            _ => (0..5).try_for_each(|_| self.read(0))?,
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(&self.last, &self.maybe))
    }
    fn end(&mut self) -> Result<(), String> {
        (0..3).try_for_each(|p| self.read(p))?;
        self.read_batch(&[1, 2])?;
        // and after a clean restart
        self.step(12)?;
        (0..3).try_for_each(|p| self.read(p))
    }
}
fn configs() -> Vec<(&'static str, DiskManagerConfig)> {
    let b = disk::config;
    vec![
        ("no cache, staged writes", b()),
        ("small cache, staged writes", DiskManagerConfig { cache_size_mb: 3, hot_cache_ratio: 0.34, warm_cache_ratio: 0.34, ..b() }),
        ("default ratios cache, flush every 2 pages", DiskManagerConfig { cache_size_mb: 8, flush_threshold_pages: 2, fsync_policy: FsyncPolicy::OnFlush, ..b() }),
        ("no cache, write-through", DiskManagerConfig { flush_threshold_pages: 1, durability_level: DurabilityLevel::Sync, fsync_policy: FsyncPolicy::PerWrite, ..b() }),
        ("staging buffer without room", DiskManagerConfig { write_buffer_size_mb: 0, ..b() }),
        ("work stealing, cache", DiskManagerConfig { work_stealing_enabled: true, io_threads: 2, cache_size_mb: 3, hot_cache_ratio: 0.34, warm_cache_ratio: 0.34, batch_size: 1, ..b() }),
        ("work stealing, no cache, batches of 2", DiskManagerConfig { work_stealing_enabled: true, io_threads: 3, batch_size: 2, ..b() }),
        ("compression, durable", DiskManagerConfig { compression_enabled: true, durability_level: DurabilityLevel::Durable, fsync_policy: FsyncPolicy::OnFlush, batch_size: 3, ..b() }),
        ("direct I/O, no cache, write-through", DiskManagerConfig { direct_io: true, flush_threshold_pages: 1, durability_level: DurabilityLevel::Sync, fsync_policy: FsyncPolicy::OnFlush, ..b() }),
        ("the default configuration", Default::default()),
        ("direct I/O, staged writes, small cache", DiskManagerConfig { direct_io: true, batch_size: 1, cache_size_mb: 3, hot_cache_ratio: 0.34, warm_cache_ratio: 0.34, ..b() }),
    ]
}
pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(58, 850);
    for (i, (name, cfg)) in configs().into_iter().enumerate() {
        if cfg.direct_io && !Scratch::on_disk("c15").direct_io() {
            ctx.note("no direct I/O on this file system");
            continue;
        }
        let deep = [1, 4, 5].contains(&i);
        sequences(ctx, name, OPS.len(), ctx.pick(if deep { 4 } else if cfg.direct_io { 2 } else { 3 }, if cfg.direct_io { 3 } else { 4 }), dl, |i| OPS[i].into(), &|| Sys::new(cfg.clone()));
    }
    // more pages than the staging buffer holds
    let mut cfg = disk::config();
    cfg.write_buffer_size_mb = 1;
    for (n, cache, direct) in [(257u64, 0usize, false), (300, 0, false), (300, 6, false), (257, 0, true)] {
        cfg.cache_size_mb = cache;
        cfg.direct_io = direct;
        let s = if direct { Scratch::on_disk("c15b") } else { Scratch::new("c15b") };
        if direct && !s.direct_io() {
            continue;
        }
        let m = disk::open(&s, cfg.clone());
        for r in 0..2u8 {
            for p in 0..n {
                if let Err(e) = disk::block_on(m.write_page(p, page((p as u8) ^ r))) {
                    ctx.violation(&format!("writing {n} pages: page {p} fails"), serde_json::json!({"error": e.to_string()}));
                }
                // every earlier page stays readable while the buffer fills and drains
                for q in [0, p / 2, p] {
                    let d = disk::block_on(m.read_page(q)).unwrap_or_default();
                    if d != page((q as u8) ^ r) {
                        ctx.violation(&format!("writing {n} pages, cache {cache}, round {r}: page {q} is wrong after page {p} is written"), serde_json::json!({}));
                    }
                    ctx.add(0, 1, 0);
                }
            }
        }
        ctx.add(1, 0, 1);
        ctx.validated(1);
    }
}
