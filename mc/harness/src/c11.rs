//! C11: the buffer pool against a map of page contents (every operation sequence); C12: the same pool under every schedule.
use crate::common::*;
use crate::disk;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
use ferrite::common::config::{PageId, DB_PAGE_SIZE, INVALID_PAGE_ID};
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{BasicPage, PageTrait};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const PAGE: usize = DB_PAGE_SIZE as usize;
type Guard = PageGuard<BasicPage>;
fn put(g: &Guard, v: u8) {
    let mut w = g.write();
    let d = w.get_data_mut();
    (d[1], d[100], d[PAGE - 1]) = (v, v, v);
}
fn get(g: &Guard) -> Result<u8, String> {
    let r = g.read();
    let d = r.get_data();
    if d[1] != d[100] || d[1] != d[PAGE - 1] {
        return Err(format!("page {} holds a mixture of contents", g.get_page_id()));
    }
    if r.get_page_id() != g.get_page_id() {
        return Err(format!("the guard of page {} shows page {}", g.get_page_id(), r.get_page_id()));
    }
    Ok(d[1])
}
fn pool(frames: usize, k: usize, s: &Scratch) -> Arc<BufferPoolManager> {
    let m = Arc::new(disk::open(s, disk::config()));
    let r = Arc::new(parking_lot::RwLock::new(LRUKReplacer::new(frames, k)));
    Arc::new(BufferPoolManager::new(frames, m, r).unwrap())
}

struct Sys {
    frames: usize,
    k: usize,
    bpm: Option<Arc<BufferPoolManager>>,
    content: BTreeMap<PageId, u8>,
    pages: Vec<PageId>,
    held: Vec<(PageId, Guard)>,
    next: u8,
    scratch: Scratch,
}
const MAX: usize = 4;
#[derive(Clone, Copy, Debug)]
enum Op {
    New,
    NewHeld,
    NewWith,
    Write(usize),
    Read(usize),
    Hold(usize),
    WriteHeld,
    ReleaseFirst,
    ReleaseLast,
    WritePage(usize),
    Flush(usize),
    FlushAll,
    FlushBatch,
    Delete(usize),
    LoadBatch,
    WrongType(usize),
    Restart,
}
fn ops() -> Vec<Op> {
    use Op::*;
    vec![
        Write(0), Read(0), Hold(0), Write(1), Read(1), New, Write(2), Read(2), NewHeld, ReleaseFirst, Hold(1), Hold(2), Flush(0), FlushAll, Restart, Delete(0), ReleaseLast, WriteHeld, LoadBatch,
        WritePage(0), FlushBatch, NewWith, WrongType(1), Delete(1),
    ]
}
impl Sys {
    fn new(frames: usize, k: usize) -> Self {
        disk::renew();
        let scratch = Scratch::new("c11");
        let bpm = pool(frames, k, &scratch);
        Sys { frames, k, bpm: Some(bpm), content: BTreeMap::new(), pages: vec![], held: vec![], next: 0, scratch }
    }
    fn b(&self) -> &Arc<BufferPoolManager> {
        self.bpm.as_ref().unwrap()
    }
    fn pinned(&self) -> usize {
        let mut v: Vec<_> = self.held.iter().map(|x| x.0).collect();
        v.sort();
        v.dedup();
        v.len()
    }
    fn resident(&self, p: PageId) -> bool {
        self.b().get_page_table().read().contains_key(&p)
    }
    /// must a fetch of `p` succeed?
    fn fits(&self, p: PageId) -> bool {
        self.held.iter().any(|x| x.0 == p) || self.pinned() < self.frames
    }
    fn fetch(&self, p: PageId) -> Result<Option<Guard>, String> {
        let want = self.fits(p);
        let g = self.b().fetch_page::<BasicPage>(p);
        match (&g, want) {
            (None, true) => return Err(format!("fetching page {p} failed with {} of {} frames pinned", self.pinned(), self.frames)),
            (Some(_), false) => return Err(format!("page {p} was fetched although every frame was pinned")),
            _ => {},
        }
        if let Some(g) = &g {
            self.same(g)?;
        }
        Ok(g)
    }
    fn same(&self, g: &Guard) -> Result<(), String> {
        let (p, c) = (g.get_page_id(), get(g)?);
        if c != self.content[&p] {
            return Err(format!("page {p} has content {c}, last written was {}", self.content[&p]));
        }
        Ok(())
    }
    fn fresh(&mut self) -> u8 {
        self.next += 1;
        self.next
    }
    fn page(&self, i: usize) -> Option<PageId> {
        self.pages.get(i).copied()
    }
    fn create(&mut self, with: bool) -> Result<Option<Guard>, String> {
        let want = self.pinned() < self.frames;
        let g = if with {
            self.b().new_page_with_options::<BasicPage, _>(|id| {
                let mut p = <BasicPage as ferrite::storage::page::Page>::new(id);
                let d = p.get_data_mut();
                (d[1], d[100], d[PAGE - 1]) = (200, 200, 200);
                p
            })
        } else {
            self.b().new_page::<BasicPage>()
        };
        match (&g, want) {
            (None, true) => return Err(format!("creating a page failed with {} of {} frames pinned", self.pinned(), self.frames)),
            (Some(_), false) => return Err("a page was created although every frame was pinned".into()),
            _ => {},
        }
        if let Some(g) = &g {
            let p = g.get_page_id();
            if self.pages.contains(&p) {
                return Err(format!("the new page got the id {p} of an existing page"));
            }
            self.content.insert(p, if with { 200 } else { 0 });
            self.pages.push(p);
            self.same(g)?;
        }
        Ok(g)
    }
    fn check(&self) -> Result<(), String> {
        for (p, g) in &self.held {
            self.same(g)?;
            if !self.resident(*p) {
                return Err(format!("page {p} left the pool while it was pinned"));
            }
            let n = self.held.iter().filter(|x| x.0 == *p).count();
            if g.read().get_pin_count() as usize != n {
                return Err(format!("page {p} has pin count {} with {n} guards", g.read().get_pin_count()));
            }
        }
        let used = self.b().get_page_table().read().len();
        if used + self.b().get_free_list_size() != self.frames {
            return Err(format!("{used} frames in use and {} free, of {}", self.b().get_free_list_size(), self.frames));
        }
        Ok(())
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        use Op::*;
        disk::runtime();
        match ops()[op] {
            New | NewHeld | NewWith if self.pages.len() == MAX => return Ok(false),
            New => drop(self.create(false)?),
            NewWith => drop(self.create(true)?),
            NewHeld => {
                if self.held.len() > self.frames {
                    return Ok(false);
                }
                if let Some(g) = self.create(false)? {
                    self.held.push((g.get_page_id(), g));
                }
            },
            Write(i) => {
                let Some(p) = self.page(i) else { return Ok(false) };
                if let Some(g) = self.fetch(p)? {
                    let v = self.fresh();
                    put(&g, v);
                    self.content.insert(p, v);
                }
            },
            Read(i) => {
                let Some(p) = self.page(i) else { return Ok(false) };
                self.fetch(p)?;
            },
            Hold(i) => {
                let Some(p) = self.page(i) else { return Ok(false) };
                if self.held.len() > self.frames {
                    return Ok(false);
                }
                if let Some(g) = self.fetch(p)? {
                    self.held.push((p, g));
                }
            },
            WriteHeld => {
                let v = self.fresh();
                let Some((p, g)) = self.held.last() else { return Ok(false) };
                put(g, v);
                self.content.insert(*p, v);
            },
            ReleaseFirst => {
                if self.held.is_empty() {
                    return Ok(false);
                }
                self.held.remove(0);
            },
            ReleaseLast => {
                if self.held.len() < 2 {
                    return Ok(false);
                }
                self.held.pop();
            },
            WritePage(i) => {
                let Some(p) = self.page(i) else { return Ok(false) };
                if !self.resident(p) {
                    return Ok(false);
                }
                let v = self.fresh();
                let mut d = [0u8; PAGE];
                d[ferrite::storage::page::PAGE_TYPE_OFFSET] = ferrite::storage::page::PageType::Basic.to_u8();
                (d[1], d[100], d[PAGE - 1]) = (v, v, v);
                self.b().write_page(p, d);
                self.content.insert(p, v);
            },
            Flush(i) => {
                let Some(p) = self.page(i) else { return Ok(false) };
                let r = disk::block_on(self.b().flush_page_async(p));
                if r.is_ok() != self.resident(p) {
                    return Err(format!("flushing page {p} returned {r:?}"));
                }
            },
            FlushAll => disk::block_on(self.b().flush_all_pages_async()),
            FlushBatch => {
                disk::block_on(self.b().flush_dirty_pages_batch_async(1)).map_err(|e| format!("batch flush: {e}"))?;
            },
            Delete(i) => {
                let Some(p) = self.page(i) else { return Ok(false) };
                let (there, pinned) = (self.resident(p), self.held.iter().any(|x| x.0 == p));
                let r = self.b().delete_page(p);
                if r.is_ok() != (there && !pinned) {
                    return Err(format!("deleting page {p} (in the pool: {there}, pinned: {pinned}) returned {r:?}"));
                }
                if r.is_ok() {
                    self.pages.retain(|x| *x != p);
                    self.content.insert(p, 0);
                }
            },
            LoadBatch => {
                if self.pages.len() < 2 || self.pinned() != 0 {
                    return Ok(false);
                }
                let (p, q) = (self.pages[0], self.pages[1]);
                let want = [q, p, q];
                let got = mcstd::drive(self.b().load_pages_batch::<BasicPage>(want.to_vec()));
                if got.len() != 3 {
                    return Err(format!("a batch of 3 pages returned {} entries", got.len()));
                }
                for (i, g) in got.iter().enumerate() {
                    match g {
                        Some(g) if g.get_page_id() != want[i] => return Err(format!("entry {i} of the batch is page {} instead of {}", g.get_page_id(), want[i])),
                        Some(g) => self.same(g)?,
                        None if self.frames >= 2 || want[i] == q => return Err(format!("page {} was not loaded in the batch", want[i])),
                        None => {},
                    }
                }
                drop(got);
            },
            WrongType(i) => {
                let Some(p) = self.page(i) else { return Ok(false) };
                if self.b().fetch_page::<TablePage>(p).is_some() {
                    return Err(format!("page {p} was fetched as a page of another type"));
                }
                if !self.held.iter().any(|x| x.0 == p) && self.b().unpin_page(p, true, AccessType::Unknown) {
                    return Err(format!("page {p} was unpinned although nobody had it pinned"));
                }
            },
            Restart => {
                if !self.held.is_empty() {
                    return Ok(false);
                }
                let b = self.bpm.take().unwrap();
                disk::block_on(b.flush_all_pages_durable()).map_err(|e| format!("durable flush: {e}"))?;
                drop(b);
                self.bpm = Some(pool(self.frames, self.k, &self.scratch));
            },
        }
        self.check()?;
        Ok(true)
    }
    fn digest(&self) -> u64 {
        let b = self.b();
        let pages = b.get_pages();
        let pages = pages.read();
        let t = b.get_page_table();
        let t = t.read();
        let mut v: Vec<_> = t.iter().map(|(p, f)| (*p, *f, pages[*f as usize].as_ref().map(|x| x.read().is_dirty()))).collect();
        v.sort();
        hash(&(v, self.pages.len(), self.held.iter().map(|x| x.0).collect::<Vec<_>>()))
    }
    fn end(&mut self) -> Result<(), String> {
        disk::runtime();
        for bad in [INVALID_PAGE_ID, 1000] {
            if self.b().fetch_page::<BasicPage>(bad).is_some() {
                return Err(format!("page {bad}, which does not exist, was fetched"));
            }
        }
        self.held.clear();
        for _ in 0..2 {
            for p in self.pages.clone() {
                self.fetch(p)?;
            }
        }
        // every frame can be used again
        let mut all = Vec::new();
        for _ in 0..self.frames {
            all.push(self.b().new_page::<BasicPage>().ok_or("a frame was lost")?);
        }
        if self.b().new_page::<BasicPage>().is_some() {
            return Err("more pages pinned than there are frames".into());
        }
        drop(all);
        for p in self.pages.clone() {
            self.fetch(p)?;
        }
        self.check()
    }
}
impl Drop for Sys {
    fn drop(&mut self) {
        self.held.clear();
    }
}
pub fn contents(ctx: &'static Ctx) {
    let dl = ctx.deadline(50, 800);
    let show = |i: usize| format!("{:?}", ops()[i]);
    let at = |o: &str| ops().iter().position(|x| format!("{x:?}") == o).unwrap();
    let three = [at("New"), at("New"), at("New")];
    for (frames, k) in [(1usize, 2usize), (2, 2), (2, 1), (3, 2)] {
        sequences_from(ctx, &format!("{frames} frames, k={k}, three pages"), &three, ops().len(), ctx.pick(4, 5), dl, show, &|| Sys::new(frames, k));
    }
    sequences(ctx, "2 frames, k=2, empty", ops().len(), ctx.pick(4, 5), dl, show, &|| Sys::new(2, 2));
    // deeper, on the operations that move pages
    let few: Vec<usize> = ["Write(0)", "Read(1)", "Hold(0)", "ReleaseFirst", "Read(2)", "Flush(0)", "New"].iter().map(|o| at(o)).collect();
    let f2 = few.clone();
    struct Sub(Sys, Vec<usize>);
    impl System for Sub {
        fn step(&mut self, op: usize) -> Result<bool, String> {
            let o = if op < self.1.len() { self.1[op] } else { op - self.1.len() };
            self.0.step(o)
        }
        fn digest(&self) -> u64 {
            self.0.digest()
        }
        fn end(&mut self) -> Result<(), String> {
            self.0.end()
        }
    }
    let start: Vec<usize> = three.iter().map(|o| o + few.len()).collect();
    for frames in [1usize, 2] {
        let f3 = few.clone();
        let f4 = f2.clone();
        sequences_from(ctx, &format!("{frames} frames, page traffic"), &start, few.len(), ctx.pick(6, 8), dl, move |i| {
            if i < f3.len() { show(f3[i]) } else { show(i - f3.len()) }
        }, &move || Sub(Sys::new(frames, 2), f4.clone()));
    }
}

// ---------------------------------------------------------------- schedules

#[derive(Clone, Copy, Debug)]
enum Act {
    /// fetch the page and add one to its content
    Inc(usize),
    /// fetch and read twice under one guard
    Read(usize),
    Flush(usize),
    FlushAll,
    FlushBatch,
    New,
    Delete(usize),
    Batch(usize, usize),
}
struct Shared {
    bpm: Arc<BufferPoolManager>,
    rt: Arc<tokio::runtime::Runtime>,
    pages: Vec<PageId>,
    incs: Mutex<BTreeMap<PageId, u8>>,
    created: Mutex<Vec<PageId>>,
    bad: Mutex<Option<String>>,
    _s: Scratch,
}
fn inc(x: &Shared, g: &Guard) {
    let mut w = g.write();
    let d = w.get_data_mut();
    let v = d[1] + 1;
    d[1] = v;
    d[100] = v;
    d[PAGE - 1] = v;
    drop(w);
    *x.incs.lock().unwrap().entry(g.get_page_id()).or_insert(0) += 1;
}
fn act(x: &Shared, a: Act) -> Result<String, String> {
    Ok(match a {
        Act::Inc(i) => match x.bpm.fetch_page::<BasicPage>(x.pages[i]) {
            Some(g) => {
                inc(x, &g);
                format!("+{i}")
            },
            None => format!("no{i}"),
        },
        Act::Read(i) => match x.bpm.fetch_page::<BasicPage>(x.pages[i]) {
            Some(g) => {
                let a = get(&g)?;
                let b = get(&g)?;
                if b < a {
                    return Err(format!("page {i} went back from {a} to {b} under a pin"));
                }
                format!("r{i}={b}")
            },
            None => format!("no{i}"),
        },
        Act::Flush(i) => format!("f{}", mcstd::drive(x.bpm.flush_page_async(x.pages[i])).is_ok()),
        Act::FlushAll => {
            mcstd::drive(x.bpm.flush_all_pages_async());
            "F".into()
        },
        Act::FlushBatch => {
            mcstd::drive(x.bpm.flush_dirty_pages_batch_async(4)).map_err(|e| format!("batch flush: {e}"))?;
            "B".into()
        },
        Act::New => match x.bpm.new_page::<BasicPage>() {
            Some(g) => {
                x.created.lock().unwrap().push(g.get_page_id());
                inc(x, &g);
                "n".into()
            },
            None => "nonew".into(),
        },
        Act::Delete(i) => format!("d{}", x.bpm.delete_page(x.pages[i]).is_ok()),
        Act::Batch(i, j) => {
            let v = mcstd::drive(x.bpm.load_pages_batch::<BasicPage>(vec![x.pages[i], x.pages[j]]));
            for (n, g) in [i, j].iter().zip(&v) {
                if let Some(g) = g {
                    if g.get_page_id() != x.pages[*n] {
                        return Err(format!("the batch returned page {} instead of {}", g.get_page_id(), x.pages[*n]));
                    }
                    inc(x, g);
                }
            }
            format!("b{}", v.iter().filter(|x| x.is_some()).count())
        },
    })
}
fn scenario(frames: usize, warm: &[usize], programs: &[Vec<Act>]) -> mcrt::Scenario {
    let s = Scratch::new("c12");
    let rt = disk::new_runtime();
    mcstd::use_runtime(Some(rt.clone()));
    // three pages on disk with content 10, 20, 30, and a pool that has not seen them
    let open = || {
        let m = Arc::new(rt.block_on(ferrite::storage::disk::async_disk::AsyncDiskManager::new(s.file("db"), s.file("log"), disk::config())).expect("open"));
        let r = Arc::new(parking_lot::RwLock::new(LRUKReplacer::new(frames, 2)));
        Arc::new(BufferPoolManager::new(frames, m, r).unwrap())
    };
    let b = open();
    let mut pages = vec![];
    for i in 0..3u8 {
        let g = b.new_page::<BasicPage>().expect("new page");
        put(&g, 10 * (i + 1));
        pages.push(g.get_page_id());
    }
    rt.block_on(b.flush_all_pages_durable()).expect("flush");
    drop(b);
    let bpm = open();
    for w in warm {
        bpm.fetch_page::<BasicPage>(pages[*w]).expect("warm");
    }
    let x = Arc::new(Shared { bpm, rt, pages, incs: Mutex::new(BTreeMap::new()), created: Mutex::new(vec![]), bad: Mutex::new(None), _s: s });
    // one frame per thread is enough for threads that pin one page at a time
    let enough = frames >= programs.len() && !programs.iter().flatten().any(|a| matches!(a, Act::Batch(..) | Act::FlushBatch));
    let mut threads: Vec<mcrt::Body> = vec![];
    for (t, prog) in programs.iter().enumerate() {
        let (x, prog) = (x.clone(), prog.clone());
        threads.push(Box::new(move || {
            mcstd::use_runtime(Some(x.rt.clone()));
            for a in prog {
                match act(&x, a) {
                    Ok(l) => mcrt::event(format!("{t}{l}")),
                    Err(e) => *x.bad.lock().unwrap() = Some(e),
                }
            }
            mcstd::use_runtime(None);
        }));
    }
    mcrt::Scenario {
        threads,
        finish: Box::new(move |info| {
            if let Some(d) = &info.dead {
                return Err(d.clone());
            }
            if let Some((t, p)) = info.panics.first() {
                return Err(format!("thread {t}: {p}"));
            }
            if let Some(b) = x.bad.lock().unwrap().clone() {
                return Err(b);
            }
            if let (true, Some(l)) = (enough, info.log.iter().find(|l| l[1..].starts_with("no"))) {
                return Err(format!("thread {} got no frame although there is one per thread ({l})", &l[..1]));
            }
            mcstd::use_runtime(Some(x.rt.clone()));
            let incs = x.incs.lock().unwrap().clone();
            let deleted = info.log.iter().any(|l| l.contains("dtrue"));
            let mut want: BTreeMap<PageId, u8> = x.pages.iter().enumerate().map(|(i, p)| (*p, 10 * (i as u8 + 1))).collect();
            let created = x.created.lock().unwrap().clone();
            for p in &created {
                if want.insert(*p, 0).is_some() {
                    return Err(format!("a new page got the id {p} of another one"));
                }
            }
            let check = |bpm: &Arc<BufferPoolManager>, when: &str| -> Result<(), String> {
                for (p, base) in &want {
                    if deleted && *p == x.pages[0] {
                        continue;
                    }
                    let g = bpm.fetch_page::<BasicPage>(*p).ok_or(format!("page {p} cannot be fetched {when}"))?;
                    if g.read().get_pin_count() != 1 {
                        return Err(format!("page {p} has {} pins {when}, one is right", g.read().get_pin_count()));
                    }
                    let (c, w) = (get(&g)?, base + incs.get(p).copied().unwrap_or(0));
                    if c != w {
                        return Err(format!("page {p} has content {c} {when}; {w} is right"));
                    }
                }
                Ok(())
            };
            let frames_ok = |when: &str| {
                let used = x.bpm.get_page_table().read().len();
                let free = x.bpm.get_free_list_size();
                if used + free != frames { Err(format!("{used} frames in use and {free} free {when}, of {frames}")) } else { Ok(()) }
            };
            frames_ok("after the threads")?;
            check(&x.bpm, "after the threads")?;
            let mut all = vec![];
            for _ in 0..frames {
                all.push(x.bpm.new_page::<BasicPage>().ok_or("a frame was lost")?);
            }
            drop(all);
            check(&x.bpm, "after other pages used every frame")?;
            frames_ok("at the end")?;
            mcstd::use_runtime(None);
            let mut l = info.log.clone();
            l.sort();
            Ok(l.join(","))
        }),
    }
}
pub fn schedules(ctx: &'static Ctx) {
    mcrt::quiet_disk(true);
    use Act::*;
    let all: Vec<(&str, usize, Vec<usize>, Vec<Vec<Act>>)> = vec![
        ("same cold page", 2, vec![], vec![vec![Inc(0)], vec![Inc(0)]]),
        ("fetch against eviction", 1, vec![0], vec![vec![Inc(0)], vec![Inc(1)]]),
        ("dirty eviction", 1, vec![], vec![vec![Inc(0), Inc(1)], vec![Inc(1), Inc(0)]]),
        ("more pages than frames", 2, vec![0, 1], vec![vec![Inc(2), Inc(0)], vec![Inc(1), Read(2)]]),
        ("flush against write", 2, vec![0], vec![vec![Flush(0), Inc(1)], vec![Inc(0), Inc(2)]]),
        ("batch flush against write", 2, vec![0, 1], vec![vec![Inc(0), FlushBatch], vec![Inc(0), Inc(2)]]),
        ("new against fetch", 1, vec![0], vec![vec![New], vec![Inc(0), Inc(1)]]),
        ("delete against fetch", 1, vec![0], vec![vec![Delete(0), Inc(1)], vec![Read(0), Inc(2)]]),
        ("batch load against fetch", 2, vec![1], vec![vec![Batch(0, 1)], vec![Inc(0), Inc(2)]]),
        ("flush all against eviction", 1, vec![0], vec![vec![Inc(0), FlushAll], vec![Inc(1)]]),
        ("three threads", 2, vec![0], vec![vec![Inc(0)], vec![Inc(1)], vec![Inc(2)]]),
    ];
    let dl = ctx.deadline(55, 850);
    let n = all.len();
    for (i, (name, frames, warm, progs)) in all.iter().enumerate() {
        let left = dl.saturating_duration_since(std::time::Instant::now());
        let opt = mcrt::Options { preemptions: ctx.pick(2, 3), deadline: Some(std::time::Instant::now() + left / (n - i) as u32), ..Default::default() };
        let make = || scenario(*frames, warm, progs);
        ctx.schedules(name, &opt, &make);
    }
    ctx.note(json!("a disk operation is one step between scheduling points; schedules of the disk layer itself are not explored here").to_string());
}
