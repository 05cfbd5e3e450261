//! parking_lot with scheduling points. Everything is built on the real raw locks, so threads outside
//! the controlled scheduler get exactly the real behaviour.
pub use lock_api;
pub use lock_api::{
    ArcMutexGuard, ArcReentrantMutexGuard, ArcRwLockReadGuard, ArcRwLockUpgradableReadGuard,
    ArcRwLockWriteGuard,
};
pub use pl::{
    const_fair_mutex, const_reentrant_mutex, FairMutex, FairMutexGuard, MappedFairMutexGuard,
    MappedReentrantMutexGuard, Once, OnceState, RawFairMutex, RawThreadId, ReentrantMutex,
    ReentrantMutexGuard, WaitTimeoutResult as RealWaitTimeoutResult,
};
use lock_api::{
    RawMutex as RM, RawMutexFair, RawMutexTimed, RawRwLock as RR, RawRwLockDowngrade,
    RawRwLockFair, RawRwLockRecursive, RawRwLockRecursiveTimed, RawRwLockTimed, RawRwLockUpgrade,
    RawRwLockUpgradeDowngrade, RawRwLockUpgradeFair, RawRwLockUpgradeTimed,
};
use std::time::{Duration, Instant};

pub struct RawMutex(pl::RawMutex);
impl RawMutex {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
}
unsafe impl RM for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(<pl::RawMutex as RM>::INIT);
    type GuardMarker = <pl::RawMutex as RM>::GuardMarker;
    #[track_caller]
    fn lock(&self) {
        if !mcrt::controlled_here() {
            return self.0.lock();
        }
        mcrt::point_here();
        while !self.0.try_lock() {
            mcrt::block(self.addr(), false);
        }
    }
    #[track_caller]
    fn try_lock(&self) -> bool {
        mcrt::point_here();
        self.0.try_lock()
    }
    unsafe fn unlock(&self) {
        self.0.unlock();
        mcrt::wake_all(self.addr());
    }
    fn is_locked(&self) -> bool {
        self.0.is_locked()
    }
}
unsafe impl RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.unlock_fair();
        mcrt::wake_all(self.addr());
    }
}
unsafe impl RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    #[track_caller]
    fn try_lock_for(&self, d: Duration) -> bool {
        if !mcrt::controlled_here() {
            return self.0.try_lock_for(d);
        }
        mcrt::point_here();
        while !self.0.try_lock() {
            if mcrt::block(self.addr(), true) {
                return self.0.try_lock();
            }
        }
        true
    }
    #[track_caller]
    fn try_lock_until(&self, t: Instant) -> bool {
        self.try_lock_for(t.saturating_duration_since(Instant::now()))
    }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as RM>::INIT, v)
}

pub struct RawRwLock(pl::RawRwLock);
impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn writer_waits(&self) -> bool {
        // a waiting writer keeps new readers out while readers remain, as in the real lock
        self.0.is_locked() && !self.0.is_locked_exclusive() && mcrt::other_wants_excl(self.addr())
    }
    fn freed(&self) {
        mcrt::wake_all(self.addr());
    }
}
unsafe impl RR for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(<pl::RawRwLock as RR>::INIT);
    type GuardMarker = <pl::RawRwLock as RR>::GuardMarker;
    #[track_caller]
    fn lock_shared(&self) {
        if !mcrt::controlled_here() {
            return self.0.lock_shared();
        }
        mcrt::point_here();
        while self.writer_waits() || !self.0.try_lock_shared() {
            mcrt::block(self.addr(), false);
        }
    }
    #[track_caller]
    fn try_lock_shared(&self) -> bool {
        mcrt::point_here();
        !self.writer_waits() && self.0.try_lock_shared()
    }
    unsafe fn unlock_shared(&self) {
        self.0.unlock_shared();
        self.freed();
    }
    #[track_caller]
    fn lock_exclusive(&self) {
        if !mcrt::controlled_here() {
            return self.0.lock_exclusive();
        }
        mcrt::point_here();
        while !self.0.try_lock_exclusive() {
            mcrt::want_excl(self.addr());
            mcrt::block(self.addr(), false);
        }
        mcrt::want_excl(0);
    }
    #[track_caller]
    fn try_lock_exclusive(&self) -> bool {
        mcrt::point_here();
        self.0.try_lock_exclusive()
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.unlock_exclusive();
        self.freed();
    }
    fn is_locked(&self) -> bool {
        self.0.is_locked()
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.is_locked_exclusive()
    }
}
unsafe impl RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.0.unlock_shared_fair();
        self.freed();
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.0.unlock_exclusive_fair();
        self.freed();
    }
}
unsafe impl RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.downgrade();
        self.freed();
    }
}
unsafe impl RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    #[track_caller]
    fn try_lock_shared_for(&self, d: Duration) -> bool {
        if !mcrt::controlled_here() {
            return self.0.try_lock_shared_for(d);
        }
        mcrt::point_here();
        while self.writer_waits() || !self.0.try_lock_shared() {
            if mcrt::block(self.addr(), true) {
                return self.0.try_lock_shared();
            }
        }
        true
    }
    #[track_caller]
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        self.try_lock_shared_for(t.saturating_duration_since(Instant::now()))
    }
    #[track_caller]
    fn try_lock_exclusive_for(&self, d: Duration) -> bool {
        if !mcrt::controlled_here() {
            return self.0.try_lock_exclusive_for(d);
        }
        mcrt::point_here();
        while !self.0.try_lock_exclusive() {
            mcrt::want_excl(self.addr());
            if mcrt::block(self.addr(), true) {
                mcrt::want_excl(0);
                let ok = self.0.try_lock_exclusive();
                if !ok {
                    self.freed(); // readers held back by this writer may go on
                }
                return ok;
            }
        }
        mcrt::want_excl(0);
        true
    }
    #[track_caller]
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        self.try_lock_exclusive_for(t.saturating_duration_since(Instant::now()))
    }
}
unsafe impl RawRwLockRecursive for RawRwLock {
    #[track_caller]
    fn lock_shared_recursive(&self) {
        if !mcrt::controlled_here() {
            return self.0.lock_shared_recursive();
        }
        mcrt::point_here();
        while !self.0.try_lock_shared_recursive() {
            mcrt::block(self.addr(), false);
        }
    }
    #[track_caller]
    fn try_lock_shared_recursive(&self) -> bool {
        mcrt::point_here();
        self.0.try_lock_shared_recursive()
    }
}
unsafe impl RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, d: Duration) -> bool {
        self.0.try_lock_shared_recursive_for(d)
    }
    fn try_lock_shared_recursive_until(&self, t: Instant) -> bool {
        self.0.try_lock_shared_recursive_until(t)
    }
}
unsafe impl RawRwLockUpgrade for RawRwLock {
    #[track_caller]
    fn lock_upgradable(&self) {
        if !mcrt::controlled_here() {
            return self.0.lock_upgradable();
        }
        mcrt::point_here();
        while self.writer_waits() || !self.0.try_lock_upgradable() {
            mcrt::block(self.addr(), false);
        }
    }
    #[track_caller]
    fn try_lock_upgradable(&self) -> bool {
        mcrt::point_here();
        self.0.try_lock_upgradable()
    }
    unsafe fn unlock_upgradable(&self) {
        self.0.unlock_upgradable();
        self.freed();
    }
    #[track_caller]
    unsafe fn upgrade(&self) {
        if !mcrt::controlled_here() {
            return self.0.upgrade();
        }
        mcrt::point_here();
        while !self.0.try_upgrade() {
            mcrt::want_excl(self.addr());
            mcrt::block(self.addr(), false);
        }
        mcrt::want_excl(0);
    }
    #[track_caller]
    unsafe fn try_upgrade(&self) -> bool {
        mcrt::point_here();
        self.0.try_upgrade()
    }
}
unsafe impl RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        self.0.unlock_upgradable_fair();
        self.freed();
    }
}
unsafe impl RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.downgrade_upgradable();
        self.freed();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.0.downgrade_to_upgradable();
        self.freed();
    }
}
unsafe impl RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, d: Duration) -> bool {
        self.0.try_lock_upgradable_for(d)
    }
    fn try_lock_upgradable_until(&self, t: Instant) -> bool {
        self.0.try_lock_upgradable_until(t)
    }
    unsafe fn try_upgrade_for(&self, d: Duration) -> bool {
        self.0.try_upgrade_for(d)
    }
    unsafe fn try_upgrade_until(&self, t: Instant) -> bool {
        self.0.try_upgrade_until(t)
    }
}
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as RR>::INIT, v)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar {
    m: pl::Mutex<()>,
    c: pl::Condvar,
}
impl std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { m: pl::const_mutex(()), c: pl::Condvar::new() }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    pub fn notify_one(&self) -> bool {
        if mcrt::controlled_here() {
            mcrt::point_here();
            return mcrt::wake_n(self.addr(), 1) > 0;
        }
        let _g = self.m.lock();
        self.c.notify_one()
    }
    pub fn notify_all(&self) -> usize {
        if mcrt::controlled_here() {
            mcrt::point_here();
            return mcrt::wake_n(self.addr(), usize::MAX);
        }
        let _g = self.m.lock();
        self.c.notify_all()
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        if mcrt::controlled_here() {
            let a = self.addr();
            // registering as a waiter and releasing the mutex are one step
            let raw = unsafe { MutexGuard::mutex(g).raw() };
            unsafe { raw.unlock() };
            mcrt::block(a, false);
            raw.lock();
            return;
        }
        let mut i = self.m.lock();
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        unsafe { raw.unlock() };
        self.c.wait(&mut i);
        drop(i);
        raw.lock();
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        if mcrt::controlled_here() {
            unsafe { raw.unlock() };
            let to = mcrt::block(self.addr(), true);
            raw.lock();
            return WaitTimeoutResult(to);
        }
        let mut i = self.m.lock();
        unsafe { raw.unlock() };
        let r = self.c.wait_for(&mut i, d);
        drop(i);
        raw.lock();
        WaitTimeoutResult(r.timed_out())
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        self.wait_for(g, t.saturating_duration_since(Instant::now()))
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut *g) {
            self.wait(g);
        }
    }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut f: F,
        d: Duration,
    ) -> WaitTimeoutResult {
        let end = Instant::now() + d;
        while f(&mut *g) {
            if self.wait_until(g, end).timed_out() {
                return WaitTimeoutResult(f(&mut *g));
            }
        }
        WaitTimeoutResult(false)
    }
    pub fn wait_while_until<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        f: F,
        t: Instant,
    ) -> WaitTimeoutResult {
        self.wait_while_for(g, f, t.saturating_duration_since(Instant::now()))
    }
}
