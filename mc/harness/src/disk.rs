//! A disk manager on a scratch directory, driven by the calling thread's own single-threaded runtime (its
//! clock is virtual, so the I/O workers' idle sleeps cost nothing).
use crate::common::Scratch;
use ferrite::storage::disk::async_disk::config::{DiskManagerConfig, DurabilityLevel, FsyncPolicy};
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use std::future::Future;
use std::sync::Arc;
use tokio::runtime::{Builder, Runtime};

pub fn new_runtime() -> Arc<Runtime> {
    Arc::new(Builder::new_current_thread().enable_all().start_paused(true).build().unwrap())
}
thread_local! {
    static RT: std::cell::RefCell<Arc<Runtime>> = std::cell::RefCell::new(new_runtime());
    static USES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Called between cases: now and then starts over with a new runtime, which ends the leftover tasks of the old one.
pub fn renew() {
    if USES.with(|u| u.replace(u.get() + 1)) % 256 == 255 {
        mcstd::use_runtime(None);
        RT.with(|r| *r.borrow_mut() = new_runtime());
    }
}
/// The thread's runtime; it also becomes the one `block_on` inside the code under test drives.
pub fn runtime() -> Arc<Runtime> {
    let rt = RT.with(|r| r.borrow().clone());
    mcstd::use_runtime(Some(rt.clone()));
    rt
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    runtime().block_on(f)
}
pub fn config() -> DiskManagerConfig {
    DiskManagerConfig {
        io_threads: 1,
        direct_io: false,
        work_stealing_enabled: false,
        cache_size_mb: 0,
        write_buffer_size_mb: 1,
        flush_threshold_pages: 1_000_000,
        flush_interval_ms: 3_600_000,
        batch_size: 1_000_000,
        fsync_policy: FsyncPolicy::Never,
        durability_level: DurabilityLevel::Buffer,
        ..Default::default()
    }
}
pub fn open(s: &Scratch, cfg: DiskManagerConfig) -> AsyncDiskManager {
    block_on(AsyncDiskManager::new(s.file("db"), s.file("log"), cfg)).expect("open the database files")
}
