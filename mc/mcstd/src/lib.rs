//! `std` as the code under test sees it in the checked build: the same, with scheduling points in
//! atomics and `thread`, and a clock the harness can own.
pub use std::*;

pub mod collections;

pub fn system_now() -> std::time::SystemTime {
    match mcrt::virtual_now() {
        Some(us) => std::time::UNIX_EPOCH + std::time::Duration::from_micros(1_700_000_000_000_000 + us),
        None => std::time::SystemTime::now(),
    }
}

pub mod thread {
    pub use std::thread::*;
    pub fn sleep(d: std::time::Duration) {
        if mcrt::daemon_sleep() || mcrt::yield_point() {
            return;
        }
        // a thread with its own runtime lets the tasks there run meanwhile
        if tokio::runtime::Handle::try_current().is_err() {
            if let Some(rt) = super::RT.with(|r| r.borrow().clone()) {
                return rt.block_on(async move { tokio::time::sleep(d).await });
            }
        }
        std::thread::sleep(d);
    }
    pub fn yield_now() {
        if !mcrt::yield_point() {
            std::thread::yield_now();
        }
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if mcrt::capturing() {
            return mcrt::spawn_daemon(f);
        }
        if mcrt::spawn_suppressed() {
            // never runs `f`; joining it would be an error of the harness
            return std::thread::Builder::new()
                .stack_size(16 << 10)
                .spawn(move || {
                    drop(f);
                    std::panic::resume_unwind(Box::new("suppressed thread"))
                })
                .unwrap();
        }
        std::thread::spawn(f)
    }
}
pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        if !mcrt::yield_point() {
            std::hint::spin_loop();
        }
    }
}
pub mod sync {
    pub use std::sync::*;
    pub mod atomic {
        pub use std::sync::atomic::*;
        pub use std::sync::atomic::Ordering;
        macro_rules! common {
            ($n:ident, $t:ty) => {
                #[repr(transparent)]
                pub struct $n(std::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$n::new(v)) }
                    #[track_caller]
                    pub fn load(&self, o: Ordering) -> $t { mcrt::point_here(); self.0.load(o) }
                    #[track_caller]
                    pub fn store(&self, v: $t, o: Ordering) { mcrt::point_here(); self.0.store(v, o) }
                    #[track_caller]
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.swap(v, o) }
                    #[track_caller]
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { mcrt::point_here(); self.0.compare_exchange(a, b, s, f) }
                    #[track_caller]
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { mcrt::point_here(); self.0.compare_exchange(a, b, s, f) }
                    #[track_caller]
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut p = self.load(f);
                        while let Some(n) = g(p) {
                            match self.compare_exchange(p, n, s, f) { Ok(x) => return Ok(x), Err(x) => p = x }
                        }
                        Err(p)
                    }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    #[track_caller]
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.fetch_and(v, o) }
                    #[track_caller]
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.fetch_or(v, o) }
                    #[track_caller]
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.fetch_xor(v, o) }
                }
                impl Default for $n { fn default() -> Self { Self::new(Default::default()) } }
                impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
                impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) } }
                impl serde::Serialize for $n { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { serde::Serialize::serialize(&self.0.load(Ordering::SeqCst), s) } }
                impl<'de> serde::Deserialize<'de> for $n { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <$t as serde::Deserialize>::deserialize(d).map(Self::new) } }
            };
        }
        macro_rules! int {
            ($n:ident, $t:ty) => {
                common!($n, $t);
                impl $n {
                    #[track_caller]
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.fetch_add(v, o) }
                    #[track_caller]
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.fetch_sub(v, o) }
                    #[track_caller]
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.fetch_max(v, o) }
                    #[track_caller]
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { mcrt::point_here(); self.0.fetch_min(v, o) }
                }
            };
        }
        int!(AtomicU8, u8);
        int!(AtomicU16, u16);
        int!(AtomicU32, u32);
        int!(AtomicU64, u64);
        int!(AtomicUsize, usize);
        int!(AtomicI8, i8);
        int!(AtomicI16, i16);
        int!(AtomicI32, i32);
        int!(AtomicI64, i64);
        int!(AtomicIsize, isize);
        common!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool { self.fetch_xor(true, o) }
            #[track_caller]
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { mcrt::point_here(); self.0.fetch_nand(v, o) }
        }
    }
}

#[path = "fs.rs"]
pub mod fs_now;
thread_local! { static DRIVING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
thread_local! { static RT: std::cell::RefCell<Option<std::sync::Arc<tokio::runtime::Runtime>>> = const { std::cell::RefCell::new(None) }; }
/// Gives the calling thread a runtime that `block_on` drives.
pub fn use_runtime(rt: Option<std::sync::Arc<tokio::runtime::Runtime>>) {
    RT.with(|r| *r.borrow_mut() = rt);
}
/// Stands in for `futures::executor::block_on`: drives the thread's own runtime, if it has one, so that
/// disk I/O started by the code completes without a second thread.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    if DRIVING.with(|d| d.get()) || tokio::runtime::Handle::try_current().is_err() {
        if let Some(rt) = RT.with(|r| r.borrow().clone()) {
            if !mcrt::controlled() && !DRIVING.with(|d| d.get()) {
                return rt.block_on(f);
            }
            return drive_on(&rt, f);
        }
    }
    futures::executor::block_on(f)
}
/// Runs a future of the code under test on a controlled thread: its own steps have scheduling points, and the
/// I/O it waits for is driven in atomic steps.
pub fn drive<F: std::future::Future>(f: F) -> F::Output {
    match RT.with(|r| r.borrow().clone()) {
        Some(rt) => drive_on(&rt, f),
        None => block_on(f),
    }
}
#[derive(Default)]
struct Alarm {
    rung: std::sync::atomic::AtomicBool,
    waiter: std::sync::Mutex<Option<std::task::Waker>>,
}
impl std::task::Wake for Alarm {
    fn wake(self: std::sync::Arc<Self>) {
        self.rung.store(true, std::sync::atomic::Ordering::SeqCst);
        if let Some(w) = self.waiter.lock().unwrap().take() {
            w.wake();
        }
    }
}
impl Alarm {
    async fn wait(&self) {
        std::future::poll_fn(|cx| {
            *self.waiter.lock().unwrap() = Some(cx.waker().clone());
            if self.rung.swap(false, std::sync::atomic::Ordering::SeqCst) {
                return std::task::Poll::Ready(());
            }
            std::task::Poll::Pending
        })
        .await
    }
}
fn drive_on<F: std::future::Future>(rt: &tokio::runtime::Runtime, f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let alarm = std::sync::Arc::new(Alarm::default());
    let free = (!mcrt::controlled()).then(|| std::task::Waker::from(alarm.clone()));
    let mut cx = std::task::Context::from_waker(free.as_ref().unwrap_or(std::task::Waker::noop()));
    let mut n = 0;
    mcrt::point();
    loop {
        let r = {
            let _in = rt.enter();
            let was = DRIVING.with(|d| d.replace(true));
            let r = f.as_mut().poll(&mut cx);
            DRIVING.with(|d| d.set(was));
            r
        };
        if let std::task::Poll::Ready(x) = r {
            mcrt::point();
            return x;
        }
        if free.is_some() {
            rt.block_on(alarm.wait());
            continue;
        }
        mcrt::atomic_step(|| rt.block_on(async { tokio::time::sleep(std::time::Duration::from_millis(1)).await }));
        n += 1;
        // waiting for I/O; or, after a while, for another thread that holds a lock of the disk manager
        if n % 64 == 0 {
            mcrt::yield_point();
        }
    }
}
/// Stands in for `println!`: the arguments are evaluated, nothing is printed.
#[macro_export]
macro_rules! unprinted {
    () => {};
    ($($t:tt)*) => { drop(format!($($t)*)) };
}
