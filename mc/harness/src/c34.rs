//! C34: the parts a page write passes through: compression, staging, coalescing, durability and direct I/O,
//! each next to a reference written from its documentation.
use crate::common::*;
use crate::disk::block_on;
use ferrite::storage::disk::async_disk::compression::{CompressionAlgorithm, CompressionEngine};
use ferrite::storage::disk::async_disk::config::{DurabilityLevel, FsyncPolicy};
use ferrite::storage::disk::async_disk::memory::coalescing::{CoalesceResult, CoalescingEngine, PageRange, SizeAnalyzer};
use ferrite::storage::disk::async_disk::memory::{DurabilityManager, DurabilityProvider, FlushCoordinator, FlushDecision, WriteStagingBuffer};
use ferrite::storage::disk::direct_io::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- compression

const BYTES: [u8; 8] = [0, 1, 0x41, 0xF0, 0xF1, 0xFD, 0xFE, 0xFF];

fn compression(ctx: &Ctx) {
    let algos = [
        (CompressionAlgorithm::None, 0u32),
        (CompressionAlgorithm::LZ4, 0),
        (CompressionAlgorithm::Zstd, 1),
        (CompressionAlgorithm::Zstd, 3),
        (CompressionAlgorithm::Zstd, 9),
    ];
    let one = |data: &[u8], e: &mut CompressionEngine, before: &mut u64, after: &mut u64, a: CompressionAlgorithm, level: u32| {
        let r = guard(|| e.compress_data(data, a, level)).and_then(|c| {
            *before += data.len() as u64;
            *after += c.len() as u64;
            guard(|| e.decompress_data(&c)).map(|d| (c, d))
        });
        let show = || if data.len() > 24 { format!("{} bytes starting {:02x?}", data.len(), &data[..8]) } else { format!("{data:02x?}") };
        match r {
            Err(p) => ctx.violation(&format!("compression {a:?}: a page is not read back"), json!({"data": show(), "level": level, "error": p})),
            Ok((c, d)) => {
                if d != data {
                    ctx.violation(
                        &format!("compression {a:?}: a page is not read back"),
                        json!({"data": show(), "level": level, "stored": format!("{:02x?}", &c[..c.len().min(24)]), "read": format!("{:02x?}", &d[..d.len().min(24)]), "read_length": d.len()}),
                    );
                }
                let s = e.get_stats();
                if s.0 != *before || s.1 != *after || (*after > 0 && s.2 != *before as f64 / *after as f64) || e.get_compression_ratio() != s.2 {
                    ctx.violation("compression: wrong counters", json!({"data": show(), "stats": format!("{s:?}"), "before": *before, "after": *after}));
                }
            }
        }
    };
    let max = ctx.pick(5, 6);
    for (a, level) in algos {
        let len = if level > 1 { max - 2 } else { max - (a == CompressionAlgorithm::Zstd) as usize };
        let total: u64 = (0..=len).map(|l| (BYTES.len() as u64).pow(l as u32)).sum();
        par(BYTES.len() + 1, |first| {
            // an engine per thread of work, so that counters are checked as well
            let (mut e, mut b, mut f) = (CompressionEngine::new(), 0, 0);
            if first == BYTES.len() {
                one(&[], &mut e, &mut b, &mut f, a, level);
                return;
            }
            for l in 1..=len {
                for i in 0..(BYTES.len() as u64).pow(l as u32 - 1) {
                    let mut w: Vec<u8> = vec![BYTES[first]];
                    w.extend(word(i, BYTES.len(), l - 1).iter().map(|&x| BYTES[x]));
                    one(&w, &mut e, &mut b, &mut f, a, level);
                }
            }
        });
        // pages: each byte repeated, alternating pairs, one odd byte at each end, counting
        let mut e = CompressionEngine::new();
        let (mut b, mut f) = (0, 0);
        let mut n = 0u64;
        for size in [1usize, 2, 3, 6, 64, 255, 256, 257, 4096] {
            for x in 0..=255u8 {
                one(&vec![x; size], &mut e, &mut b, &mut f, a, level);
                n += 1;
            }
            for x in BYTES {
                for y in BYTES {
                    let alt: Vec<u8> = (0..size).map(|i| if i % 2 == 0 { x } else { y }).collect();
                    let (mut head, mut tail) = (vec![x; size], vec![x; size]);
                    head[0] = y;
                    tail[size - 1] = y;
                    for w in [alt, head, tail] {
                        one(&w, &mut e, &mut b, &mut f, a, level);
                        n += 1;
                    }
                }
            }
            one(&(0..size).map(|i| (i * 7 % 251) as u8).collect::<Vec<_>>(), &mut e, &mut b, &mut f, a, level);
            n += 1;
        }
        ctx.add(total + n, 2 * (total + n), total + n);
        ctx.part(json!({"scenario": format!("compression {a:?} level {level}"), "inputs": total + n, "strings_up_to": len}));
    }
}

// ---------------------------------------------------------------- staging buffer

#[derive(Clone, Copy, Debug)]
enum St {
    Write(u64, usize),
    Drain,
    RestoreLast,
    RestoreOther(u64, usize),
}
const SIZES: [usize; 4] = [0, 1, 3, 5];
fn st_ops() -> Vec<St> {
    let mut v: Vec<St> = (0..3).flat_map(|p| SIZES.map(|s| St::Write(p, s))).collect();
    v.extend([St::Drain, St::RestoreLast, St::RestoreOther(0, 3), St::RestoreOther(2, 1)]);
    v
}
struct Staging {
    real: WriteStagingBuffer,
    want: BTreeMap<u64, Vec<u8>>,
    drained: Vec<(u64, Vec<u8>)>,
    n: u8,
    max: usize,
    compress: bool,
}
impl Staging {
    fn new(max: usize, compress: bool) -> Self {
        Staging { real: WriteStagingBuffer::new(max, compress), want: BTreeMap::new(), drained: vec![], n: 0, max, compress }
    }
}
impl System for Staging {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        self.n += 1;
        match st_ops()[op] {
            St::Write(p, s) => {
                let data = vec![self.n; s];
                let used: usize = self.want.values().map(Vec::len).sum();
                let total = used - self.want.get(&p).map_or(0, Vec::len) + s;
                let fits = total <= self.max;
                let r = guard(|| self.real.buffer_write(p, data.clone()))?.map_err(|e| format!("buffer_write failed: {e}"))?;
                if r != fits {
                    return Err(format!("a write of {s} bytes to page {p} (then {total} of {} bytes) was {}", self.max, if r { "accepted" } else { "refused" }));
                }
                if fits {
                    self.want.insert(p, data);
                }
            }
            St::Drain => {
                let mut got = guard(|| self.real.drain_buffer())?;
                got.sort();
                let want: Vec<_> = std::mem::take(&mut self.want).into_iter().collect();
                if got != want {
                    return Err(format!("drained {got:?}, staged were {want:?}"));
                }
                self.drained = got;
            }
            St::RestoreLast => {
                if self.drained.is_empty() {
                    return Ok(false);
                }
                let d = std::mem::take(&mut self.drained);
                guard(|| self.real.restore_pages(d.clone()))?;
                for (p, x) in d {
                    self.want.entry(p).or_insert(x); // what was written meanwhile is newer
                }
            }
            St::RestoreOther(p, s) => {
                let d = vec![(p, vec![self.n; s])];
                guard(|| self.real.restore_pages(d.clone()))?;
                for (p, x) in d {
                    self.want.entry(p).or_insert(x);
                }
            }
        }
        for p in 0..4 {
            let got = guard(|| self.real.get(p))?;
            if got.as_ref() != self.want.get(&p) {
                return Err(format!("page {p} reads {got:?}, staged is {:?}", self.want.get(&p)));
            }
        }
        let size: usize = self.want.values().map(Vec::len).sum();
        let s = guard(|| self.real.get_stats())?;
        let seen = (self.real.buffer_size_bytes(), self.real.dirty_page_count(), self.real.is_empty(), self.real.max_buffer_size());
        if seen != (size, self.want.len(), self.want.is_empty(), self.max) {
            return Err(format!("size, dirty pages, empty, limit are {seen:?}, staged are {:?}", self.want));
        }
        if (s.buffer_size_bytes, s.dirty_pages, s.max_buffer_size, s.compression_enabled) != (size, self.want.len(), self.max, self.compress)
            || (s.utilization_percent - if self.max == 0 { 0.0 } else { size as f64 * 100.0 / self.max as f64 }).abs() > 1e-6
        {
            return Err(format!("statistics {s:?} for {:?}", self.want));
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&self.want.iter().map(|(p, d)| (*p, d.len())).collect::<Vec<_>>())
    }
}

// ---------------------------------------------------------------- coalescing

#[derive(Clone, Copy, Debug)]
enum Co {
    Write(u64),
    Empty(u64),
    Pass(u64),
    Clean,
    Clear,
}
const CO_PAGES: [u64; 5] = [0, 1, 5, u64::MAX - 4, u64::MAX];
fn co_ops() -> Vec<Co> {
    let mut v: Vec<Co> = CO_PAGES.map(Co::Write).to_vec();
    v.extend([Co::Empty(1), Co::Pass(40), Co::Pass(61), Co::Clean, Co::Clear]);
    v
}
#[derive(Clone, Debug)]
struct Entry {
    data: Vec<u8>,
    age: u64,
    seq: u32,
    freq: u32,
}
/// Time passes in minutes by moving everything the engine remembers into the past; the window is an hour.
struct Coalescing {
    real: CoalescingEngine,
    want: BTreeMap<u64, Entry>,
    max: usize,
    since_cleanup: u64,
    freed: usize,
    by_time: usize,
    seq: u32,
}
impl Coalescing {
    fn new(max: usize, filled: u64) -> Self {
        let mut s = Coalescing { real: CoalescingEngine::new(Duration::from_secs(3600), max), want: BTreeMap::new(), max, since_cleanup: 0, freed: 0, by_time: 0, seq: 0 };
        for p in 0..filled {
            // pages 100.. with frequencies 1, 2, 3, 1, ...
            for _ in 0..1 + p % 3 {
                let _ = s.write(100 + p, vec![9; 10]);
            }
        }
        s
    }
    fn write(&mut self, p: u64, data: Vec<u8>) -> Result<(), String> {
        self.seq += 1;
        let merged = self.want.contains_key(&p);
        let r = guard(|| self.real.try_coalesce_write(p, data.clone()))?.map_err(|e| format!("write refused: {e}"))?;
        match (&r, merged) {
            (CoalesceResult::Merged(d), true) | (CoalesceResult::NoCoalesce(d), false) if *d == data => {}
            _ => return Err(format!("writing page {p} (pending before: {merged}) gave {r:?}")),
        }
        let f = self.want.get(&p).map_or(0, |e| e.freq);
        self.want.insert(p, Entry { data, age: 0, seq: self.seq, freq: f + 1 });
        if !merged && self.want.len() > self.max {
            let mut order: Vec<(u32, u64)> = self.want.iter().map(|(p, e)| (e.seq, *p)).collect();
            order.sort();
            for (_, p) in order.iter().take(self.want.len() - self.max / 2) {
                self.want.remove(p);
            }
            self.since_cleanup = 0;
        }
        Ok(())
    }
    fn cleanup(&mut self) -> Result<(), String> {
        let now = Instant::now();
        guard(|| self.real.cleanup_expired_writes(now))?.map_err(|e| format!("cleanup failed: {e}"))?;
        if self.since_cleanup == 0 {
            return Ok(()); // less than the minimal interval ago: nothing happens
        }
        self.since_cleanup = 0;
        let before = self.want.clone();
        let limit = self.max.max(128);
        let pressure = if self.max == 0 { 0.0 } else { before.values().map(|e| e.data.len()).sum::<usize>() as f64 / (self.max * 4096) as f64 };
        self.want.retain(|_, e| e.age <= 60);
        let expired = before.len() - self.want.len();
        let left: Vec<u64> = self.real.pending_writes.keys().copied().collect();
        if let Some(p) = left.iter().find(|p| !self.want.contains_key(p)) {
            return Err(format!("page {p} is still pending after the cleanup though {}", if before.contains_key(p) { "it is older than the window" } else { "it was not before" }));
        }
        let gone: Vec<u64> = self.want.keys().copied().filter(|p| !left.contains(p)).collect();
        let m = self.real.get_stats().last_cleanup_metrics;
        let by_memory = if pressure > 0.8 || before.len() > limit {
            let target = if pressure > 0.9 { before.len() / 2 } else { before.len().saturating_sub(limit) };
            target.min(self.want.len())
        } else {
            0
        };
        let by_access = if expired + by_memory < limit / 4 { (limit / 8).min(self.want.len() - by_memory) } else { 0 };
        if gone.len() != by_memory + by_access {
            return Err(format!("{} pages were dropped early, {by_memory} for memory and {by_access} for rare use should have been", gone.len()));
        }
        if by_memory == 0 {
            let most = gone.iter().map(|p| self.want[p].freq).max().unwrap_or(0);
            if let Some(p) = left.iter().find(|p| self.want[p].freq < most) {
                return Err(format!("page {p} was kept though written less often than one that was dropped for rare use"));
            }
        }
        let freed: usize = before.iter().filter(|(p, _)| !left.contains(p)).map(|(_, e)| e.data.len()).sum();
        if (m.cleaned_by_time, m.cleaned_by_memory, m.cleaned_by_access, m.total_data_size_freed) != (expired, by_memory, by_access, freed) {
            return Err(format!("metrics {m:?}, expected {:?}", (expired, by_memory, by_access, freed)));
        }
        self.by_time = expired;
        self.freed = freed;
        for p in gone {
            self.want.remove(&p);
        }
        Ok(())
    }
}
impl System for Coalescing {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        match co_ops()[op] {
            Co::Write(p) => {
                let d = vec![self.seq as u8; 1 + self.seq as usize % 3];
                self.write(p, d)?;
            }
            Co::Empty(p) => {
                if guard(|| self.real.try_coalesce_write(p, vec![]))?.is_ok() {
                    return Err("an empty write was accepted".into());
                }
            }
            Co::Pass(min) => {
                let d = Duration::from_secs(60 * min);
                let back = |t: &mut Instant| *t = t.checked_sub(d).expect("clock");
                self.real.write_timestamps.values_mut().for_each(back);
                back(&mut self.real.last_cleanup);
                self.want.values_mut().for_each(|e| e.age += min);
                self.since_cleanup += min;
            }
            Co::Clean => self.cleanup()?,
            Co::Clear => {
                guard(|| self.real.clear_all())?;
                self.want.clear();
                self.since_cleanup = 0;
            }
        }
        let got: BTreeMap<u64, Vec<u8>> = self.real.pending_writes.iter().map(|(p, d)| (*p, d.clone())).collect();
        let want: BTreeMap<u64, Vec<u8>> = self.want.iter().map(|(p, e)| (*p, e.data.clone())).collect();
        if got != want {
            return Err(format!("pending are {got:?}, expected {want:?}"));
        }
        let keys = |m: Vec<u64>| {
            let mut m = m;
            m.sort();
            m
        };
        let all: Vec<u64> = want.keys().copied().collect();
        if keys(self.real.write_timestamps.keys().copied().collect()) != all || keys(self.real.access_frequencies.keys().copied().collect()) != all {
            return Err(format!("time stamps or frequencies are kept for other pages than the pending ones {all:?}"));
        }
        if let Some((p, e)) = self.want.iter().find(|(p, e)| self.real.access_frequencies[p] != e.freq) {
            return Err(format!("page {p} was written {} times, counted {}", e.freq, self.real.access_frequencies[p]));
        }
        let s = guard(|| self.real.get_stats())?;
        let oldest = self.want.values().map(|e| e.age).max().unwrap_or(0);
        if s.pending_writes != all.len() || s.total_data_size != want.values().map(Vec::len).sum::<usize>() || s.oldest_write_age.as_secs() / 60 != oldest {
            return Err(format!("statistics {s:?} for {:?}", self.want));
        }
        for p in [0u64, 1, 2, 4, 5, 6, 9, 10, 98, 103, 150, u64::MAX - 8, u64::MAX - 4, u64::MAX - 1, u64::MAX] {
            let near: Vec<u64> = all.iter().copied().filter(|q| *q != p && q.abs_diff(p) <= 4).collect();
            let got = guard(|| self.real.find_adjacent_pages(p))?;
            if got != near {
                return Err(format!("pages next to {p} are {got:?}, pending within 4 are {near:?}"));
            }
            let a = guard(|| self.real.get_coalescing_size_analysis(&near, &[1, 2, 3]))?;
            let data = 3 + near.iter().map(|q| want[q].len()).sum::<usize>();
            let runs = near.iter().filter(|q| !near.contains(&q.wrapping_sub(1)) || **q == 0).count().max(1);
            if a.data_size != data || a.num_ranges != runs {
                return Err(format!("size analysis of {near:?}: {a:?}, data {data}, runs {runs}"));
            }
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&self.want.iter().map(|(p, e)| (*p, e.age, e.freq)).collect::<Vec<_>>())
    }
}

fn ranges(ctx: &Ctx) {
    let span = ctx.pick(10, 13);
    for base in [0u64, 100, u64::MAX - span as u64 + 1] {
        for has_data in [0usize, 1, 2] {
            par(1 << span, |mask| {
                let pages: Vec<u64> = (0..span).filter(|i| mask >> i & 1 == 1).map(|i| base + i as u64).collect();
                let pending: HashMap<u64, Vec<u8>> = pages.iter().filter(|p| has_data == 2 || (has_data == 1 && *p % 2 == 0)).map(|p| (*p, vec![0; 1 + (*p % 5) as usize])).collect();
                let size = |p: &u64| pending.get(p).map_or(4096, Vec::len);
                let mut want: Vec<PageRange> = vec![];
                for p in &pages {
                    match want.last_mut() {
                        Some(r) if r.end.checked_add(1) == Some(*p) => {
                            r.end = *p;
                            r.size_bytes += size(p);
                        }
                        _ => want.push(PageRange { start: *p, end: *p, size_bytes: size(p) }),
                    }
                }
                let gaps: Vec<(u64, u64, usize)> =
                    want.windows(2).map(|w| (w[0].end + 1, w[1].start - 1, (w[1].start - w[0].end - 1) as usize * 4096)).collect();
                let a = SizeAnalyzer::new();
                let mut reversed = pages.clone();
                reversed.reverse();
                for list in [&pages, &reversed] {
                    let r = guard(|| {
                        let r = a.build_page_ranges(list, &pending);
                        let g = a.analyze_page_gaps(&r);
                        let d = a.calculate_detailed_coalesced_size(list, &[7; 5], &pending);
                        let t = a.calculate_coalesced_size(list, &[7; 5], &pending);
                        let v = a.validate_page_ranges(&r).is_ok();
                        let mut swapped = r.clone();
                        swapped.reverse();
                        (r, g, d, t, v, a.validate_page_ranges(&swapped).is_ok())
                    });
                    let bad = match r {
                        Err(p) => Some(p),
                        Ok((r, g, d, t, v, w)) => {
                            let data = 5 + pending.values().map(Vec::len).sum::<usize>();
                            if r != want {
                                Some(format!("ranges {r:?} instead of {want:?}"))
                            } else if g != gaps {
                                Some(format!("gaps {g:?} instead of {gaps:?}"))
                            } else if d.data_size != data || d.num_ranges != want.len().max(1) || t != d.total_size {
                                Some(format!("analysis {d:?}, total {t}, data {data}"))
                            } else if !v || w != (want.len() < 2) {
                                Some(format!("validation of ranges: in order {v}, in reverse {w}"))
                            } else {
                                None
                            }
                        }
                    };
                    if let Some(b) = bad {
                        ctx.violation("coalescing: ranges of adjacent pages", json!({"pages": list, "problem": b}));
                    }
                }
            });
            ctx.add(1 << span, 2 << span, 2 << span);
        }
    }
    ctx.part(json!({"scenario": "runs and gaps of page sets", "sets": 9u64 << span}));
}

// ---------------------------------------------------------------- durability and flush decisions

struct Recorder {
    calls: std::sync::Mutex<Vec<&'static str>>,
    fail: Option<&'static str>,
}
impl Recorder {
    fn call(&self, n: &'static str) -> std::io::Result<()> {
        self.calls.lock().unwrap().push(n);
        if self.fail == Some(n) { Err(std::io::Error::other("injected")) } else { Ok(()) }
    }
}
impl DurabilityProvider for Recorder {
    async fn sync_data(&self) -> std::io::Result<()> {
        self.call("data")
    }
    async fn sync_log(&self) -> std::io::Result<()> {
        self.call("log")
    }
}

fn durability(ctx: &Ctx) {
    let levels = || [DurabilityLevel::None, DurabilityLevel::Buffer, DurabilityLevel::Sync, DurabilityLevel::Durable];
    let policies = || [FsyncPolicy::Never, FsyncPolicy::OnFlush, FsyncPolicy::PerWrite, FsyncPolicy::Periodic(Duration::ZERO), FsyncPolicy::Periodic(Duration::from_secs(3600))];
    let page_sets: Vec<Vec<(u64, Vec<u8>)>> = vec![vec![], vec![(1, vec![1])], vec![(1, vec![1]), (2, vec![2; 4096])]];
    let fails = [None, Some("data"), Some("log")];
    let (mut n, mut t) = (0u64, 0u64);
    for level in levels() {
        for policy in policies() {
            for wal in [false, true] {
                for f1 in fails {
                    for p1 in &page_sets {
                        for f2 in fails {
                            for p2 in &page_sets {
                                let m = DurabilityManager::new(policy.clone(), level.clone(), wal);
                                let mut pending = 0;
                                for (pages, fail) in [(p1, f1), (p2, f2)] {
                                    let rec = Recorder { calls: Default::default(), fail };
                                    let due = match policy {
                                        FsyncPolicy::Never => false,
                                        FsyncPolicy::Periodic(d) => d.is_zero(),
                                        _ => true,
                                    };
                                    let mut want: Vec<&str> = match level {
                                        _ if pages.is_empty() => vec![],
                                        DurabilityLevel::None | DurabilityLevel::Buffer => vec![],
                                        DurabilityLevel::Sync => if due { vec!["data"] } else { vec![] },
                                        // the log first, so that no page gets ahead of it
                                        DurabilityLevel::Durable => if wal { vec!["log", "data"] } else { vec!["data"] },
                                    };
                                    let synced = want.contains(&"data");
                                    let failed = fail.and_then(|f| want.iter().position(|c| *c == f));
                                    if let Some(i) = failed {
                                        want.truncate(i + 1);
                                    }
                                    let got = guard(|| block_on(m.apply_durability(pages, &rec)));
                                    let calls = rec.calls.lock().unwrap().clone();
                                    let wal_written = wal && !pages.is_empty() && !matches!(level, DurabilityLevel::None);
                                    if failed.is_none() && synced {
                                        pending += pages.len();
                                    }
                                    let bad = match &got {
                                        Err(p) => Some(p.clone()),
                                        Ok(r) if r.is_err() != failed.is_some() => Some(format!("result {r:?}")),
                                        Ok(Ok(r)) if (r.sync_performed, r.wal_written, r.pages_synced, r.durability_level == level) != (synced, wal_written, pages.len(), true) => Some(format!("result {r:?}")),
                                        _ if calls != want => Some("wrong calls".into()),
                                        _ if m.pending_syncs() != pending => Some(format!("pending syncs {} instead of {pending}", m.pending_syncs())),
                                        _ => None,
                                    };
                                    t += 1;
                                    if let Some(b) = bad {
                                        ctx.violation("durability: what a level promises is not done", json!({"level": format!("{level:?}"), "policy": format!("{policy:?}"), "wal": wal, "pages": pages.len(), "failing": fail, "calls": calls, "expected_calls": want, "problem": b}));
                                    }
                                }
                                n += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    for threshold in 0..4usize {
        for interval in 0..4u64 {
            let f = FlushCoordinator::new(threshold, Duration::from_secs(interval));
            for dirty in 0..5usize {
                for since in 0..5u64 {
                    let want = if dirty >= threshold { FlushDecision::ThresholdFlush } else if since >= interval { FlushDecision::IntervalFlush } else { FlushDecision::NoFlush };
                    let got = guard(|| block_on(f.should_flush(dirty, Duration::from_secs(since))));
                    if got.as_ref() != Ok(&want) {
                        ctx.violation("flush decision", json!({"threshold": threshold, "interval": interval, "dirty": dirty, "since": since, "got": format!("{got:?}"), "want": format!("{want:?}")}));
                    }
                    n += 1;
                    t += 1;
                }
            }
            // only one flush at a time
            let order = guard(|| {
                let a = (f.try_start_flush(), f.is_flush_in_progress(), f.try_start_flush());
                block_on(f.complete_flush());
                let b = (f.is_flush_in_progress(), f.try_start_flush());
                f.force_complete();
                (a, b, f.is_flush_in_progress())
            });
            if order != Ok(((true, true, false), (false, true), false)) {
                ctx.violation("flush coordination", json!({"got": format!("{order:?}")}));
            }
        }
    }
    ctx.add(n, t, n);
    ctx.part(json!({"scenario": "durability levels and flush decisions", "cases": n}));
}

// ---------------------------------------------------------------- direct I/O

const LEN: usize = 3 * 4096;

fn direct(ctx: &Ctx) {
    use std::io::{Seek, SeekFrom, Write};
    let s = Scratch::on_disk("c34");
    let direct_ok = s.direct_io();
    if !direct_ok {
        ctx.note("the scratch file system refuses direct I/O: only buffered I/O explored");
    }
    let content: Vec<u8> = (0..LEN).map(|i| (i / 512 * 31 + i % 509) as u8).collect();
    let offsets = [0u64, 1, 100, 511, 512, 1024, 4096, 7680, 8192, 11776, 12288, 16384];
    let sizes = [0usize, 1, 100, 511, 512, 513, 1024, 4096, 4097, 8192, 12288];
    let file = s.file("pages");
    std::fs::write(&file, &content).unwrap();
    let (mut n, mut t) = (0u64, 0u64);
    let store: AlignedBuffer = AlignedBuffer::from_slice(&vec![0u8; 32768], 4096);
    let mut store = store;
    for enabled in if direct_ok { vec![false, true] } else { vec![false] } {
        for alignment in if enabled { vec![0usize, 3, 512, 1024, 4096] } else { vec![1, 512, 4096] } {
            let cfg = DirectIOConfig { enabled, alignment };
            let valid = alignment.is_power_of_two();
            let mut f = match guard(|| open_direct_io(&file, true, true, false, &cfg)) {
                Ok(Ok(f)) => f,
                r => {
                    ctx.violation("direct I/O: open", json!({"config": format!("{cfg:?}"), "got": format!("{:?}", r.map(|r| r.map(|_| ())))}));
                    continue;
                }
            };
            for offset in offsets {
                for size in sizes {
                    if size == 0 && !valid {
                        continue;
                    }
                    let at = offset as usize;
                    let offset_ok = !enabled || (valid && at % alignment.max(1) == 0);
                    let padded = if enabled && valid { size.div_ceil(alignment) * alignment } else { size };
                    // reading into a new buffer
                    let got = guard(|| read_aligned(&mut f, offset, size, &cfg));
                    let want: Option<Vec<u8>> = if size == 0 { Some(vec![]) } else if offset_ok && at + padded <= LEN { Some(content[at..at + padded].to_vec()) } else { None };
                    let bad = match &got {
                        Err(p) => Some(p.clone()),
                        Ok(Ok(b)) if want.as_deref() != Some(b.as_slice()) => Some(format!("{} bytes read", b.len())),
                        Ok(Ok(b)) if valid && !is_aligned(b.as_slice(), alignment) => Some("the buffer is not aligned".into()),
                        Ok(Err(e)) if want.is_some() => Some(format!("{e}")),
                        _ => None,
                    };
                    let what = |what: &str, b: &str| json!({"enabled": enabled, "alignment": alignment, "offset": offset, "size": size, "operation": what, "problem": b, "file_length": LEN});
                    if let Some(b) = bad {
                        ctx.violation("direct I/O: reading", what("read_aligned", &b));
                    }
                    n += 1;
                    t += 1;
                    for shift in [0usize, 1, 64, 512] {
                        // reading into the caller's memory, however it lies
                        store.as_mut_slice().fill(0xEE);
                        let r = guard(|| read_aligned_into(&mut f, offset, &mut store.as_mut_slice()[4096 + shift..4096 + shift + size], &cfg));
                        let bounced = enabled && valid && (shift % alignment != 0 || size % alignment != 0);
                        let need = if bounced { padded } else { size };
                        let ok = size == 0 || (offset_ok && at + need <= LEN);
                        let (a, b) = (4096 + shift, 4096 + shift + size);
                        let bad = match r {
                            Err(p) => Some(p),
                            Ok(r) if r.is_ok() != ok => Some(format!("{r:?}")),
                            Ok(Ok(())) if size > 0 && store.as_slice()[a..b] != content[at..at + size] => Some("other bytes than the file's".into()),
                            _ if store.as_slice()[..a].iter().chain(&store.as_slice()[b..]).any(|x| *x != 0xEE) => Some("bytes beside the buffer changed".into()),
                            _ => None,
                        };
                        if let Some(b) = bad {
                            ctx.violation("direct I/O: reading", what(&format!("read_aligned_into, memory {shift} bytes behind a boundary"), &b));
                        }
                        // writing from there
                        let data: Vec<u8> = (0..size).map(|i| !(i % 253) as u8).collect();
                        store.as_mut_slice()[a..b].copy_from_slice(&data);
                        let w = guard(|| write_aligned(&mut f, offset, &store.as_slice()[a..b], &cfg));
                        let ok = size == 0 || (offset_ok && (!enabled || size % alignment.max(1) == 0));
                        let mut after = content.clone();
                        if ok && size > 0 {
                            if at + size > after.len() {
                                after.resize(at + size, 0);
                            }
                            after[at..at + size].copy_from_slice(&data);
                        }
                        let synced = guard(|| sync_file(&mut f, false));
                        let now = std::fs::read(&file).unwrap();
                        let bad = match w {
                            Err(p) => Some(p),
                            Ok(r) if r.is_ok() != ok => Some(format!("{r:?}")),
                            _ if now != after => Some(format!("the file has {} bytes, first difference at {:?}", now.len(), now.iter().zip(&after).position(|(x, y)| x != y))),
                            _ if !matches!(synced, Ok(Ok(()))) => Some(format!("sync: {synced:?}")),
                            _ => None,
                        };
                        if let Some(b) = bad {
                            ctx.violation("direct I/O: writing", what(&format!("write_aligned, memory {shift} bytes behind a boundary"), &b));
                        }
                        if now != content {
                            let mut o = std::fs::OpenOptions::new().write(true).open(&file).unwrap();
                            o.set_len(LEN as u64).unwrap();
                            o.seek(SeekFrom::Start(0)).unwrap();
                            o.write_all(&content).unwrap();
                        }
                        n += 2;
                        t += 2;
                    }
                }
            }
        }
    }
    // the buffers and their sizes
    for alignment in [1usize, 2, 8, 512, 4096] {
        for size in [0usize, 1, 7, 8, 9, 511, 512, 513, 4095, 4096, 4097] {
            let up = size.div_ceil(alignment) * alignment;
            let data: Vec<u8> = (0..size).map(|i| (i % 251) as u8 + 1).collect();
            for want in [0usize, 1, 512, 600, 5000] {
                let total = size.max(want).div_ceil(alignment) * alignment;
                let r = guard(|| {
                    let a = AlignedBuffer::from_slice(&data, alignment);
                    let b = AlignedBuffer::from_slice_with_size(&data, want, alignment);
                    let ok = |x: &AlignedBuffer, n: usize| {
                        x.len() == n && x.is_empty() == (n == 0) && x.to_vec() == x.as_slice() && is_aligned(x, alignment) && x[..size] == data[..] && x[size..].iter().all(|y| *y == 0)
                    };
                    (ok(&a, up), ok(&b, total), round_up_to_alignment(size, alignment) == up, is_size_aligned(size, alignment) == (up == size))
                });
                if r != Ok((true, true, true, true)) {
                    ctx.violation("direct I/O: aligned buffers", json!({"alignment": alignment, "size": size, "requested": want, "got": format!("{r:?}")}));
                }
                n += 1;
                t += 1;
            }
        }
    }
    ctx.add(n, t, n);
    ctx.part(json!({"scenario": "aligned reads and writes", "cases": n, "direct_io": direct_ok}));
}

pub fn run(ctx: &Ctx) {
    let dl = ctx.deadline(45, 780);
    durability(ctx);
    ranges(ctx);
    direct(ctx);
    compression(ctx);
    let show = |i: usize| format!("{:?}", st_ops()[i]);
    for (max, comp) in [(5usize, false), (6, true), (0, false), (usize::MAX, false)] {
        sequences(ctx, &format!("staging buffer of {max} bytes{}", if comp { ", compressing" } else { "" }), st_ops().len(), ctx.pick(5, 6), dl, show, &|| Staging::new(max, comp));
    }
    for (max, filled) in [(4usize, 0u64), (3, 0), (1, 0), (200, 30), (130, 132)] {
        let d = if filled > 0 { ctx.pick(4, 5) } else { ctx.pick(5, 6) };
        sequences(ctx, &format!("coalescing up to {max}, {filled} pages pending"), co_ops().len(), d, dl, |i| format!("{:?}", co_ops()[i]), &|| Coalescing::new(max, filled));
    }
}
