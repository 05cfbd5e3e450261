//! C14: the cache policies under the disk manager's cache, each against a reference written from its
//! documented policy, and the three-tier cache manager against a map.
use crate::common::*;
use ferrite::storage::disk::async_disk::cache::cache_manager::CacheManager;
use ferrite::storage::disk::async_disk::cache::cache_traits::*;
use ferrite::storage::disk::async_disk::cache::fifo::FIFOCache;
use ferrite::storage::disk::async_disk::cache::heap_lfu::HeapLFUCache;
use ferrite::storage::disk::async_disk::cache::lfu::LFUCache;
use ferrite::storage::disk::async_disk::cache::lru::{ConcurrentLRUCache, LRUCore};
use ferrite::storage::disk::async_disk::cache::lru_k::LRUKCache;
use ferrite::storage::disk::async_disk::config::DiskManagerConfig;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Lru,
    ConcLru,
    Lfu,
    HeapLfu,
    Fifo,
    LruK(usize),
}
enum Real {
    Lru(LRUCore<u64, u64>),
    Conc(ConcurrentLRUCache<u64, u64>),
    Lfu(LFUCache<u64, u64>),
    Heap(HeapLFUCache<u64, u64>),
    Fifo(FIFOCache<u64, u64>),
    LruK(LRUKCache<u64, u64>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Insert(u64),
    Get(u64),
    Remove(u64),
    Touch(u64),
    Reset(u64),
    Pop,
    Peek,
    Clear,
    PopTwo,
}
fn ops(kind: Kind, keys: u64) -> Vec<Op> {
    let mut v: Vec<Op> = (0..keys).map(Op::Insert).collect();
    v.extend((0..keys).map(Op::Get));
    v.push(Op::Pop);
    if kind != Kind::Fifo {
        v.extend((0..keys).map(Op::Remove));
        if kind != Kind::ConcLru || keys < 4 {
            v.extend((0..keys).map(Op::Touch));
        }
    } else {
        v.push(Op::PopTwo);
    }
    if matches!(kind, Kind::Lfu | Kind::HeapLfu) {
        v.extend((0..keys).map(Op::Reset));
    }
    v.push(Op::Peek);
    v.push(Op::Clear);
    v
}
#[derive(Clone, Debug)]
struct E {
    key: u64,
    val: u64,
    freq: u64,
    hist: Vec<u64>,
}
struct Sys {
    kind: Kind,
    keys: u64,
    cap: usize,
    n: u64,
    /// logical time of the k-access policy; constant under a frozen clock
    now: u64,
    frozen: bool,
    real: Real,
    /// oldest first: by insertion (fifo, lfu, lru-k) or by use (lru)
    m: Vec<E>,
}
macro_rules! each {
    ($s:expr, $c:ident => $e:expr) => {
        match &mut $s {
            Real::Lru($c) => $e,
            Real::Lfu($c) => $e,
            Real::Heap($c) => $e,
            Real::Fifo($c) => $e,
            Real::LruK($c) => $e,
            Real::Conc(_) => unreachable!(),
        }
    };
}
impl Real {
    fn insert(&mut self, k: u64, v: u64) -> Option<u64> {
        match self {
            Real::Lru(c) => c.insert(k, Arc::new(v)).map(|x| *x),
            Real::Conc(c) => c.insert(k, v).map(|x| *x),
            Real::Lfu(c) => c.insert(k, v),
            Real::Heap(c) => c.insert(k, v),
            Real::Fifo(c) => c.insert(k, v),
            Real::LruK(c) => c.insert(k, v),
        }
    }
    fn get(&mut self, k: u64) -> Option<u64> {
        match self {
            Real::Lru(c) => c.get(&k).map(|x| **x),
            Real::Conc(c) => c.get(&k).map(|x| *x),
            Real::Lfu(c) => c.get(&k).copied(),
            Real::Heap(c) => c.get(&k).copied(),
            Real::Fifo(c) => c.get(&k).copied(),
            Real::LruK(c) => c.get(&k).copied(),
        }
    }
    fn contains(&mut self, k: u64) -> bool {
        match self {
            Real::Conc(c) => c.contains(&k),
            r => each!(*r, c => CoreCache::contains(c, &k)),
        }
    }
    fn len(&mut self) -> usize {
        match self {
            Real::Conc(c) => c.len(),
            r => each!(*r, c => CoreCache::len(c)),
        }
    }
    fn clear(&mut self) {
        match self {
            Real::Conc(c) => c.clear(),
            r => each!(*r, c => CoreCache::clear(c)),
        }
    }
    fn remove(&mut self, k: u64) -> Option<u64> {
        match self {
            Real::Lru(c) => c.remove(&k).map(|x| *x),
            Real::Conc(c) => c.remove(&k).map(|x| *x),
            Real::Lfu(c) => c.remove(&k),
            Real::Heap(c) => c.remove(&k),
            Real::LruK(c) => c.remove(&k),
            Real::Fifo(_) => unreachable!(),
        }
    }
    fn touch(&mut self, k: u64) -> Option<u64> {
        match self {
            Real::Lru(c) => c.touch(&k).then_some(0),
            Real::Conc(c) => c.touch(&k).then_some(0),
            Real::Lfu(c) => c.increment_frequency(&k),
            Real::Heap(c) => c.increment_frequency(&k),
            Real::LruK(c) => c.touch(&k).then_some(0),
            Real::Fifo(_) => unreachable!(),
        }
    }
    fn pop(&mut self) -> Option<(u64, u64)> {
        match self {
            Real::Lru(c) => c.pop_lru().map(|(k, v)| (k, *v)),
            Real::Conc(c) => c.pop_lru().map(|(k, v)| (k, *v)),
            Real::Lfu(c) => c.pop_lfu(),
            Real::Heap(c) => c.pop_lfu(),
            Real::Fifo(c) => c.pop_oldest(),
            Real::LruK(c) => c.pop_lru_k(),
        }
    }
    fn peek(&mut self) -> Option<(u64, u64)> {
        match self {
            Real::Lru(c) => c.peek_lru().map(|(k, v)| (*k, **v)),
            Real::Conc(c) => c.peek_lru().map(|(k, v)| (k, *v)),
            Real::Lfu(c) => c.peek_lfu().map(|(k, v)| (*k, *v)),
            Real::Heap(c) => c.peek_lfu().map(|(k, v)| (*k, *v)),
            Real::Fifo(c) => c.peek_oldest().map(|(k, v)| (*k, *v)),
            Real::LruK(c) => c.peek_lru_k().map(|(k, v)| (*k, *v)),
        }
    }
}
impl Sys {
    fn new(kind: Kind, cap: usize, keys: u64, frozen: bool) -> Self {
        mcrt::set_clock(Some(1));
        mcrt::freeze_clock(frozen);
        let real = match kind {
            Kind::Lru => Real::Lru(LRUCore::new(cap)),
            Kind::ConcLru => Real::Conc(ConcurrentLRUCache::new(cap)),
            Kind::Lfu => Real::Lfu(LFUCache::new(cap)),
            Kind::HeapLfu => Real::Heap(HeapLFUCache::new(cap)),
            Kind::Fifo => Real::Fifo(FIFOCache::new(cap)),
            Kind::LruK(k) => Real::LruK(LRUKCache::with_k(cap, k)),
        };
        Sys { kind, keys, cap, n: 0, now: 0, frozen, real, m: vec![] }
    }
    fn tick(&mut self) -> u64 {
        if !self.frozen {
            self.now += 1;
        }
        self.now
    }
    fn pos(&self, k: u64) -> Option<usize> {
        self.m.iter().position(|e| e.key == k)
    }
    fn access(&mut self, i: usize) {
        match self.kind {
            Kind::Lru | Kind::ConcLru => {
                let e = self.m.remove(i);
                self.m.push(e);
            },
            Kind::LruK(k) => {
                let t = self.tick();
                let h = &mut self.m[i].hist;
                h.push(t);
                if h.len() > k {
                    h.remove(0);
                }
            },
            _ => {},
        }
    }
    /// The keys the policy allows as the next victim.
    fn victims(&self) -> Vec<u64> {
        match self.kind {
            Kind::Lru | Kind::ConcLru | Kind::Fifo => self.m.first().map(|e| e.key).into_iter().collect(),
            Kind::Lfu | Kind::HeapLfu => {
                let f = self.m.iter().map(|e| e.freq).min();
                self.m.iter().filter(|e| Some(e.freq) == f).map(|e| e.key).collect()
            },
            Kind::LruK(k) => {
                let rank = |e: &E| if e.hist.len() < k { (e.hist.len(), e.hist[0]) } else { (k, e.hist[e.hist.len() - k]) };
                let r = self.m.iter().map(rank).min();
                self.m.iter().filter(|e| Some(rank(e)) == r).map(|e| e.key).collect()
            },
        }
    }
    fn popped(&mut self, got: Option<(u64, u64)>, remove: bool, what: &str) -> Result<(), String> {
        let v = self.victims();
        match got {
            None if v.is_empty() => Ok(()),
            Some((k, val)) if v.contains(&k) => {
                let i = self.pos(k).unwrap();
                if self.m[i].val != val {
                    return Err(format!("{what} of key {k} returned the value {val}, {} was stored", self.m[i].val));
                }
                if remove {
                    self.m.remove(i);
                }
                Ok(())
            },
            g => Err(format!("{what} returned {g:?}, the policy picks one of {v:?}")),
        }
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        self.n += 1;
        let op = ops(self.kind, self.keys)[op];
        match op {
            Op::Insert(k) => {
                let v = self.n * 10 + k;
                let got = self.real.insert(k, v);
                let want = self.pos(k).map(|i| self.m[i].val);
                if got != want {
                    return Err(format!("insert of key {k} returned {got:?}, expected {want:?}"));
                }
                if let Some(i) = self.pos(k) {
                    self.m[i].val = v;
                    self.access(i);
                } else if self.cap > 0 {
                    if self.m.len() >= self.cap {
                        // whichever allowed victim it took
                        let gone: Vec<u64> = self.m.iter().map(|e| e.key).collect::<Vec<_>>().into_iter().filter(|&k| !self.real.contains(k)).collect();
                        let v = self.victims();
                        if gone.len() != 1 || !v.contains(&gone[0]) {
                            return Err(format!("a full cache evicted {gone:?}, the policy picks one of {v:?}"));
                        }
                        let i = self.pos(gone[0]).unwrap();
                        self.m.remove(i);
                    }
                    let t = self.tick();
                    self.m.push(E { key: k, val: v, freq: 1, hist: vec![t] });
                }
            },
            Op::Get(k) => {
                let got = self.real.get(k);
                let want = self.pos(k).map(|i| self.m[i].val);
                if got != want {
                    return Err(format!("get of key {k} returned {got:?}, expected {want:?}"));
                }
                if let Some(i) = self.pos(k) {
                    self.m[i].freq += 1;
                    self.access(i);
                }
            },
            Op::Remove(k) => {
                let got = self.real.remove(k);
                let want = self.pos(k).map(|i| self.m.remove(i).val);
                if got != want {
                    return Err(format!("remove of key {k} returned {got:?}, expected {want:?}"));
                }
            },
            Op::Touch(k) => {
                let got = self.real.touch(k);
                let lfu = matches!(self.kind, Kind::Lfu | Kind::HeapLfu);
                let want = self.pos(k).map(|i| {
                    self.m[i].freq += 1;
                    let f = self.m[i].freq;
                    self.access(i);
                    if lfu { f } else { 0 }
                });
                if got != want {
                    return Err(format!("touch of key {k} returned {got:?}, expected {want:?}"));
                }
            },
            Op::Reset(k) => {
                let got = match &mut self.real {
                    Real::Lfu(c) => c.reset_frequency(&k),
                    Real::Heap(c) => c.reset_frequency(&k),
                    _ => unreachable!(),
                };
                let want = self.pos(k).map(|i| std::mem::replace(&mut self.m[i].freq, 1));
                if got != want {
                    return Err(format!("frequency reset of key {k} returned {got:?}, expected {want:?}"));
                }
            },
            Op::Pop => {
                let g = self.real.pop();
                self.popped(g, true, "pop")?;
            },
            Op::PopTwo => {
                let Real::Fifo(c) = &mut self.real else { unreachable!() };
                let g = c.pop_oldest_batch(2);
                if g.len() != self.m.len().min(2) {
                    return Err(format!("a batch pop of two returned {} of {} entries", g.len(), self.m.len()));
                }
                for x in g {
                    self.popped(Some(x), true, "batch pop")?;
                }
            },
            Op::Peek => {
                let g = self.real.peek();
                self.popped(g, false, "peek")?;
            },
            Op::Clear => {
                self.real.clear();
                self.m.clear();
            },
        }
        if self.real.len() != self.m.len() {
            return Err(format!("{} entries reported, {} are cached", self.real.len(), self.m.len()));
        }
        for k in 0..self.keys {
            let want = self.pos(k);
            if self.real.contains(k) != want.is_some() {
                return Err(format!("contains({k}) is {}", want.is_none()));
            }
            let (freq, rank) = (want.map(|i| self.m[i].freq), want);
            match &self.real {
                Real::Lru(c) => {
                    if c.peek(&k).map(|x| *x) != want.map(|i| self.m[i].val) {
                        return Err(format!("peek of key {k} shows {:?}", c.peek(&k)));
                    }
                    let want = rank.map(|i| self.m.len() - 1 - i);
                    if c.recency_rank(&k) != want {
                        return Err(format!("recency rank of key {k} is {:?}, expected {want:?}", c.recency_rank(&k)));
                    }
                },
                Real::Conc(c) => {
                    if c.peek(&k).map(|x| *x) != want.map(|i| self.m[i].val) {
                        return Err(format!("peek of key {k} shows {:?}", c.peek(&k)));
                    }
                },
                Real::Lfu(c) => {
                    if c.frequency(&k) != freq {
                        return Err(format!("frequency of key {k} is {:?}, expected {freq:?}", c.frequency(&k)));
                    }
                },
                Real::Heap(c) => {
                    if c.frequency(&k) != freq {
                        return Err(format!("frequency of key {k} is {:?}, expected {freq:?}", c.frequency(&k)));
                    }
                },
                Real::Fifo(c) => {
                    if c.age_rank(&k) != rank {
                        return Err(format!("age rank of key {k} is {:?}, expected {rank:?}", c.age_rank(&k)));
                    }
                },
                Real::LruK(c) => {
                    let want = want.map(|i| self.m[i].hist.len());
                    if c.access_count(&k) != want {
                        return Err(format!("access count of key {k} is {:?}, expected {want:?}", c.access_count(&k)));
                    }
                },
            }
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        let mut t: Vec<u64> = self.m.iter().flat_map(|e| e.hist.clone()).collect();
        t.sort();
        let f = !matches!(self.kind, Kind::Lru | Kind::ConcLru | Kind::Fifo | Kind::LruK(_));
        let v: Vec<_> = self
            .m
            .iter()
            .map(|e| (e.key, if f { e.freq } else { 0 }, e.hist.iter().map(|x| t.binary_search(x).unwrap()).collect::<Vec<_>>()))
            .collect();
        hash(&v)
    }
    fn end(&mut self) -> Result<(), String> {
        // the contents and the whole eviction order
        while !self.m.is_empty() {
            let g = self.real.pop();
            self.popped(g, true, "pop")?;
        }
        let g = self.real.pop();
        self.popped(g, true, "pop")
    }
}

/// The tiered cache: whatever it returns for a page is what was last stored for it.
struct Tiered {
    real: CacheManager,
    last: BTreeMap<u64, u64>,
    hits: u64,
    misses: u64,
}
impl Tiered {
    const PAGES: u64 = 3;
    fn new(mb: usize) -> Self {
        let config = DiskManagerConfig { cache_size_mb: mb, hot_cache_ratio: 0.34, warm_cache_ratio: 0.34, ..Default::default() };
        Tiered { real: CacheManager::new(&config), last: BTreeMap::new(), hits: 0, misses: 0 }
    }
    fn get(&mut self, p: u64) -> Result<(), String> {
        match self.real.get_page(p as _) {
            None => self.misses += 1,
            Some(d) => {
                self.hits += 1;
                let want = self.last.get(&p);
                if d.len() != 64 || Some(&(d[0] as u64)) != want || d.iter().any(|x| *x != d[0]) {
                    return Err(format!("the cache returned content {} for page {p}, last stored {want:?}", d[0]));
                }
            },
        }
        Ok(())
    }
}
const TOPS: &[&str] = &[
    "store 0 A", "store 0 B", "store 1 A", "store 1 B", "store 2 C", "get 0", "get 1", "get 2", "use 0 four times", "use 1 eleven times", "evict under pressure", "maintain",
];
impl System for Tiered {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let mut store = |p: u64, c: u64| {
            self.real.store_page(p as _, vec![c as u8; 64]);
            self.last.insert(p, c);
        };
        match op {
            0 => store(0, 1),
            1 => store(0, 2),
            2 => store(1, 1),
            3 => store(1, 2),
            4 => store(2, 3),
            5 => self.get(0)?,
            6 => self.get(1)?,
            7 => self.get(2)?,
            8 => (0..4).try_for_each(|_| self.get(0))?,
            9 => (0..11).try_for_each(|_| self.get(1))?,
            10 => {
                self.real.update_memory_pressure();
                self.real.evict_if_needed();
            },
            _ => {
                self.real.perform_maintenance();
                self.real.perform_specialized_maintenance();
            },
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(&self.last, self.hits, self.misses))
    }
    fn end(&mut self) -> Result<(), String> {
        (0..Self::PAGES).try_for_each(|p| self.get(p))
    }
}

pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(58, 800);
    for kind in [Kind::Lru, Kind::ConcLru, Kind::Lfu, Kind::HeapLfu, Kind::Fifo, Kind::LruK(1), Kind::LruK(2), Kind::LruK(3)] {
        for (cap, keys, d) in [(0usize, 2u64, 3), (1, 2, ctx.pick(5, 6)), (2, 3, ctx.pick(4, 6)), (3, 4, ctx.pick(4, 5))] {
            for frozen in [false, true] {
                if frozen && (!matches!(kind, Kind::LruK(_)) || cap < 2) {
                    continue;
                }
                let o = ops(kind, keys);
                let name = format!("{kind:?} capacity={cap}{}", if frozen { " all accesses at one instant" } else { "" });
                sequences(ctx, &name, o.len(), d, dl, move |i| format!("{:?}", ops(kind, keys)[i]), &|| Sys::new(kind, cap, keys, frozen));
                // from a full cache, so that evictions happen within few operations
                if cap >= 2 {
                    let start: Vec<usize> = (0..cap).collect();
                    sequences_from(ctx, &format!("{name} full"), &start, o.len(), d, dl, move |i| format!("{:?}", ops(kind, keys)[i]), &|| Sys::new(kind, cap, keys, frozen));
                }
            }
        }
    }
    mcrt::set_clock(None);
    for mb in [3usize, 6] {
        sequences(ctx, &format!("tiered cache size {mb}"), TOPS.len(), ctx.pick(4, 5), dl, |i| TOPS[i].into(), &|| Tiered::new(mb));
    }
}
