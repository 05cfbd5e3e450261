//! C13: LRU-K victim choice against a reference written from the documented policy.
use crate::common::*;
use ferrite::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
use std::collections::BTreeMap;

const FRAMES: u64 = 4;
struct Sys {
    real: LRUKReplacer,
    k: usize,
    n: u64,
    now: u64,
    frames: BTreeMap<u64, (Vec<u64>, bool)>,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Access(u64),
    Evictable(u64, bool),
    Remove(u64),
    Evict,
}
fn ops(n: u64) -> Vec<Op> {
    let mut v = Vec::new();
    v.extend((0..n).map(Op::Access));
    v.extend((0..n).map(|f| Op::Evictable(f, true)));
    v.push(Op::Evict);
    v.extend((0..n).map(|f| Op::Evictable(f, false)));
    v.extend((0..n).map(Op::Remove));
    v
}
impl Sys {
    fn new(k: usize, n: u64) -> Self {
        mcrt::set_clock(Some(1));
        Sys { real: LRUKReplacer::new(FRAMES as usize, k), k, n, now: 0, frames: BTreeMap::new() }
    }
    fn victim(&self) -> Option<u64> {
        let e: Vec<_> = self.frames.iter().filter(|(_, (_, ev))| *ev).collect();
        // fewer than k accesses: an infinite distance; fewest accesses first, then the earliest first access
        if let Some((f, _)) = e.iter().filter(|(_, (h, _))| h.len() < self.k).min_by_key(|(_, (h, _))| (h.len(), h[0])) {
            return Some(**f);
        }
        e.iter().min_by_key(|(_, (h, _))| h[h.len() - self.k]).map(|(f, _)| **f)
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        match ops(self.n)[op] {
            Op::Access(f) => {
                self.now += 1;
                self.real.record_access(f as _, [AccessType::Unknown, AccessType::Lookup, AccessType::Scan, AccessType::Index][f as usize % 4]);
                self.frames.entry(f).or_insert((vec![], false)).0.push(self.now);
            },
            Op::Evictable(f, b) => {
                let want = match self.frames.get_mut(&f) {
                    Some(x) if x.1 != b => {
                        x.1 = b;
                        true
                    },
                    _ => false,
                };
                let got = self.real.set_evictable(f as _, b);
                if got != want {
                    return Err(format!("set_evictable returned {got}, expected {want}"));
                }
            },
            Op::Remove(f) => {
                if self.frames.get(&f).is_some_and(|x| x.1) {
                    self.frames.remove(&f);
                }
                self.real.remove(f as _);
            },
            Op::Evict => {
                let want = self.victim();
                let got = self.real.evict().map(|x| x as u64);
                if got != want {
                    return Err(format!("evicted {got:?}, the policy picks {want:?}"));
                }
                if let Some(f) = want {
                    self.frames.get_mut(&f).unwrap().1 = false;
                }
            },
        }
        let n = self.frames.values().filter(|x| x.1).count();
        if self.real.total_evictable_frames() != n {
            return Err(format!("{} evictable frames reported, {n} are", self.real.total_evictable_frames()));
        }
        if self.real.total_frames() != self.frames.len() {
            return Err(format!("{} frames tracked, {} are", self.real.total_frames(), self.frames.len()));
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        // ranks of the last k accesses
        let mut t: Vec<u64> = self.frames.values().flat_map(|(h, _)| h.iter().rev().take(self.k).copied()).collect();
        t.sort();
        let v: Vec<_> = self
            .frames
            .iter()
            .map(|(f, (h, e))| (*f, *e, h.iter().rev().take(self.k).map(|x| t.binary_search(x).unwrap()).collect::<Vec<_>>()))
            .collect();
        hash(&v)
    }
    /// drains: the whole eviction order is checked at the end of every sequence
    fn end(&mut self) -> Result<(), String> {
        let evict = 2 * self.n as usize;
        while self.victim().is_some() {
            self.step(evict)?;
        }
        self.step(evict).map(|_| ())
    }
}
/// Every access history of `len` accesses over `n` frames, every set of evictable frames, one more access of every
/// frame or none after the first eviction, and the whole eviction order.
fn histories(ctx: &'static Ctx, k: usize, n: u64, len: usize, dl: std::time::Instant) {
    use std::sync::atomic::{AtomicU64, Ordering};
    let t0 = std::time::Instant::now();
    let words = (n as usize).pow(len as u32);
    let chunk = words.div_ceil(64);
    let (runs, steps, capped) = (AtomicU64::new(0), AtomicU64::new(0), std::sync::atomic::AtomicBool::new(false));
    par(words.div_ceil(chunk), |j| {
        for w in (j * chunk)..((j + 1) * chunk).min(words) {
            if std::time::Instant::now() > dl {
                capped.store(true, Ordering::SeqCst);
                return;
            }
            let acc = word(w as u64, n as usize, len);
            for set in 1u64..1 << n {
                for again in 0..=n {
                    let mut ops: Vec<usize> = acc.clone();
                    ops.extend((0..n).filter(|f| set >> f & 1 == 1).map(|f| (n + f) as usize));
                    if again < n {
                        ops.extend([2 * n as usize, again as usize, (n + again) as usize]);
                    }
                    let mut sys = Sys::new(k, n);
                    let r = guard(|| ops.iter().try_for_each(|&o| sys.step(o).map(|_| ())).and_then(|_| sys.end()));
                    runs.fetch_add(1, Ordering::Relaxed);
                    steps.fetch_add(ops.len() as u64, Ordering::Relaxed);
                    if let Err(e) | Ok(Err(e)) = r {
                        let show: Vec<String> = ops.iter().map(|&o| format!("{:?}", self::ops(n)[o])).collect();
                        ctx.violation(&format!("k={k} frames={n}: {}; drained => {e}", show.join("; ")), serde_json::json!({"operations": show, "what": e}));
                        return;
                    }
                }
            }
        }
    });
    if capped.load(Ordering::SeqCst) {
        ctx.capped();
    }
    let (r, s) = (runs.into_inner(), steps.into_inner());
    ctx.add(0, s, r);
    ctx.validated(r);
    ctx.part(serde_json::json!({"scenario": format!("k={k} frames={n} access histories of length {len}, every evictable set, drained"), "sequences": r, "steps": s,
        "capped": capped.load(Ordering::SeqCst), "wall_s": t0.elapsed().as_secs_f64()}));
}
pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(55, 700);
    for k in [1usize, 2, 3] {
        histories(ctx, k, 3, ctx.pick(7, 9), dl);
        histories(ctx, k, 4, ctx.pick(6, 7), dl);
        for (n, d) in [(2u64, ctx.pick(6, 8)), (3, ctx.pick(5, 6)), (4, ctx.pick(4, 5))] {
            let o = ops(n);
            sequences(ctx, &format!("k={k} frames={n}"), o.len(), d, dl, move |i| format!("{:?}", ops(n)[i]), &|| Sys::new(k, n));
            // all frames resident and evictable, accessed k times in order: a full pool
            let mut start: Vec<usize> = Vec::new();
            for _ in 0..k {
                start.extend(0..n as usize);
            }
            start.extend(n as usize..2 * n as usize);
            sequences_from(ctx, &format!("k={k} frames={n} full"), &start, o.len(), d, dl, move |i| format!("{:?}", ops(n)[i]), &|| Sys::new(k, n));
        }
    }
}
