//! C21: the disk-resident extendible hash table against a map.
use crate::common::*;
use crate::disk;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::common::rid::RID;
use ferrite::container::disk_extendable_hash_table::DiskExtendableHashTable;
use ferrite::container::hash_function::HashFunction;
use ferrite::types_db::value::Value;
use std::collections::BTreeMap;
use std::sync::Arc;

struct Sys {
    table: DiskExtendableHashTable,
    bpm: Arc<BufferPoolManager>,
    keys: Arc<Vec<(Value, u32)>>,
    live: BTreeMap<usize, RID>,
    depth: u32,
    size: usize,
    version: u32,
    _s: Scratch,
}
/// One key per wanted pattern of low hash bits, in order.
fn keys(bits: u32, patterns: &[u32], text: bool) -> Vec<(Value, u32)> {
    let f = HashFunction::<Value>::new();
    let mut n = 0i64;
    patterns
        .iter()
        .map(|p| loop {
            n += 1;
            let v = if text { Value::new(format!("key{n}")) } else { Value::new(n) };
            let h = f.get_hash(&v) as u32 & ((1 << bits) - 1);
            if h == *p {
                return (v, h);
            }
        })
        .collect()
}
impl Sys {
    fn new(frames: usize, depth: u32, size: u32, keys: Arc<Vec<(Value, u32)>>) -> Self {
        disk::renew();
        disk::runtime();
        let s = Scratch::new("c21");
        let m = Arc::new(disk::open(&s, disk::config()));
        let bpm = Arc::new(BufferPoolManager::new(frames, m, Arc::new(parking_lot::RwLock::new(LRUKReplacer::new(frames, 2)))).unwrap());
        let table = DiskExtendableHashTable::new("t".into(), bpm.clone(), HashFunction::new(), 0, depth, size).unwrap();
        Sys { table, bpm, keys, live: BTreeMap::new(), depth, size: size as usize, version: 0, _s: s }
    }
    fn check(&self) -> Result<(), String> {
        for (i, (k, _)) in self.keys.iter().enumerate() {
            let got = self.table.get_value(k);
            if got != self.live.get(&i).copied() {
                return Err(format!("key {i} is found with {got:?}; {:?} is right", self.live.get(&i)));
            }
        }
        let pinned: Vec<_> = self.bpm.get_pages().read().iter().flatten().filter(|p| p.read().get_pin_count() != 0).map(|p| p.read().get_page_id()).collect();
        if !pinned.is_empty() {
            return Err(format!("pages {pinned:?} stay pinned"));
        }
        Ok(())
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        disk::runtime();
        let n = self.keys.len();
        let i = op % n;
        let (k, h) = self.keys[i].clone();
        if op < n {
            if self.live.contains_key(&i) {
                return Ok(false);
            }
            self.version += 1;
            let rid = RID::new(100 + i as u64, self.version);
            // buckets can be told apart by `depth` low bits
            let mask = (1u32 << self.depth) - 1;
            let room = self.live.keys().filter(|j| self.keys[**j].1 & mask == h & mask).count() < self.size;
            let got = self.table.insert(k, rid);
            if got != room {
                return Err(format!("insert of key {i} returned {got}, there is {}room for it", if room { "" } else { "no " }));
            }
            if got {
                self.live.insert(i, rid);
            }
        } else {
            let want = self.live.remove(&i).is_some();
            let got = self.table.remove(&k);
            if got != want {
                return Err(format!("remove of key {i} returned {got}; {want} is right"));
            }
        }
        self.check()?;
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&self.live.keys().collect::<Vec<_>>())
    }
    fn end(&mut self) -> Result<(), String> {
        disk::runtime();
        let n = self.keys.len();
        // everything out, and in again
        for i in 0..n {
            self.step(n + i)?;
        }
        for i in (0..n).rev() {
            self.step(i)?;
        }
        Ok(())
    }
}
pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(50, 800);
    // (frames, directory depth, bucket size, low bits, patterns, sequence depth, text keys)
    let mut confs: Vec<(usize, u32, u32, u32, Vec<u32>, usize, bool)> = vec![
        (40, 2, 1, 3, vec![0, 1, 2, 3, 4], ctx.pick(4, 6), false),
        (6, 3, 1, 3, vec![0, 4, 2, 1, 5], ctx.pick(4, 6), false),
        (40, 3, 2, 3, vec![0, 0, 0, 4, 4, 2], ctx.pick(4, 6), true),
        (40, 0, 2, 1, vec![0, 1, 0], ctx.pick(5, 8), false),
        (6, 1, 2, 2, vec![0, 2, 0, 1, 3], ctx.pick(4, 6), false),
        (40, 4, 1, 4, vec![0, 8, 4, 12, 3], ctx.pick(4, 6), false),
    ];
    if ctx.thorough {
        confs.push((40, 4, 3, 4, vec![0, 8, 4, 12, 0, 0, 8], 6, true));
    }
    for (frames, depth, size, bits, pats, len, text) in confs {
        let ks = Arc::new(keys(bits, &pats, text));
        let n = ks.len();
        let name = format!("{frames} frames, directory depth {depth}, buckets of {size}, low hash bits {pats:?}");
        let show = move |o: usize| if o < n { format!("insert {o}") } else { format!("remove {}", o - n) };
        let all: Vec<usize> = (0..n).collect();
        sequences(ctx, &name, 2 * n, len, dl, show, &|| Sys::new(frames, depth, size, ks.clone()));
        sequences_from(ctx, &format!("{name}, full"), &all, 2 * n, len, dl, show, &|| Sys::new(frames, depth, size, ks.clone()));
        // every insertion order followed by every removal order
        let perms = crate::c20::permutations(n.min(5));
        let mut words: Vec<Vec<usize>> = vec![];
        for a in &perms {
            for b in perms.iter().step_by(ctx.pick(13, 1)) {
                words.push(a.iter().copied().chain(b.iter().map(|x| x + n)).collect());
            }
        }
        let words = &words;
        par(words.len(), |w| {
            if std::time::Instant::now() > dl {
                ctx.capped();
                return;
            }
            let mut sys = Sys::new(frames, depth, size, ks.clone());
            let r = guard(|| words[w].iter().try_for_each(|&o| sys.step(o).map(|_| ())));
            if let Err(e) | Ok(Err(e)) = r {
                let ops: Vec<String> = words[w].iter().map(|&o| show(o)).collect();
                ctx.violation(&format!("{name}: {} => {e}", ops.join("; ")), serde_json::json!({"operations": ops, "what": e}));
            }
            ctx.add(0, words[w].len() as u64, 1);
            ctx.validated(1);
        });
    }
}
