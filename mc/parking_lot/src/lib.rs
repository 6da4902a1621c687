#![allow(deprecated)]
//! See Cargo.toml. Outside exploration the locks are plain spin/yield locks.
pub mod mc;

use lock_api::{GuardNoSend, GuardSend, RawRwLock as _};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub use lock_api;

const W: usize = 1; // writer
const U: usize = 2; // upgradable reader
const R: usize = 4; // one reader

pub struct RawRwLock(AtomicUsize);

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn attempt(&self, f: impl Fn(usize) -> Option<usize>) -> bool {
        self.0.fetch_update(AcqRel, Acquire, f).is_ok()
    }
    /// Blocking acquisition: one scheduling point, then (re)try whenever scheduled.
    fn acquire(&self, f: impl Fn(usize) -> Option<usize>) {
        if mc::managed() {
            mc::point();
            while !self.attempt(&f) {
                mc::block(self.addr());
            }
            return;
        }
        let mut n = 0u32;
        while !self.attempt(&f) {
            n += 1;
            if n < 100 {
                std::hint::spin_loop();
            } else if n < 10_000 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(50));
            }
        }
    }
    fn try_acquire(&self, f: impl Fn(usize) -> Option<usize>) -> bool {
        if mc::managed() {
            mc::point();
        }
        self.attempt(f)
    }
    fn timed(&self, until: Instant, f: impl Fn(usize) -> Option<usize>) -> bool {
        if mc::managed() {
            return self.try_acquire(f);
        }
        loop {
            if self.attempt(&f) {
                return true;
            }
            if Instant::now() >= until {
                return false;
            }
            std::thread::yield_now();
        }
    }
    fn release(&self, f: impl Fn(usize) -> usize) {
        let _ = self.0.fetch_update(AcqRel, Acquire, |s| Some(f(s)));
        if mc::managed() {
            mc::released(self.addr());
        }
    }
}
fn shared(s: usize) -> Option<usize> {
    (s & W == 0).then_some(s + R)
}
fn excl(s: usize) -> Option<usize> {
    (s == 0).then_some(W)
}
fn upgradable(s: usize) -> Option<usize> {
    (s & (W | U) == 0).then_some(s | U)
}
fn upgrade(s: usize) -> Option<usize> {
    (s == U).then_some(W)
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(AtomicUsize::new(0));
    type GuardMarker = GuardSend;
    fn lock_shared(&self) {
        self.acquire(shared)
    }
    fn try_lock_shared(&self) -> bool {
        self.try_acquire(shared)
    }
    unsafe fn unlock_shared(&self) {
        self.release(|s| s - R)
    }
    fn lock_exclusive(&self) {
        self.acquire(excl)
    }
    fn try_lock_exclusive(&self) -> bool {
        self.try_acquire(excl)
    }
    unsafe fn unlock_exclusive(&self) {
        self.release(|s| s & !W)
    }
    fn is_locked(&self) -> bool {
        self.0.load(Acquire) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.load(Acquire) & W != 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.unlock_shared()
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.unlock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.lock_shared()
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.try_lock_shared()
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.release(|s| (s & !W) + R)
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, t: Duration) -> bool {
        self.timed(Instant::now() + t, shared)
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        self.timed(t, shared)
    }
    fn try_lock_exclusive_for(&self, t: Duration) -> bool {
        self.timed(Instant::now() + t, excl)
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        self.timed(t, excl)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.acquire(upgradable)
    }
    fn try_lock_upgradable(&self) -> bool {
        self.try_acquire(upgradable)
    }
    unsafe fn unlock_upgradable(&self) {
        self.release(|s| s & !U)
    }
    unsafe fn upgrade(&self) {
        self.acquire(upgrade)
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.try_acquire(upgrade)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.release(|s| (s & !U) + R)
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.release(|_| U)
    }
}

pub struct RawMutex(RawRwLock);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(RawRwLock::INIT);
    type GuardMarker = GuardNoSend;
    fn lock(&self) {
        self.0.acquire(excl)
    }
    fn try_lock(&self) -> bool {
        self.0.try_acquire(excl)
    }
    unsafe fn unlock(&self) {
        self.0.release(|s| s & !W)
    }
    fn is_locked(&self) -> bool {
        self.0.is_locked()
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.release(|s| s & !W)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, t: Duration) -> bool {
        self.0.timed(Instant::now() + t, excl)
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        self.0.timed(t, excl)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static K: u8 = const { 0 });
        K.with(|k| std::num::NonZeroUsize::new(k as *const u8 as usize).unwrap())
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

/// Condition variable (polling; every wake-up may be spurious).
#[derive(Default, Debug)]
pub struct Condvar(());
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(())
    }
    pub fn notify_one(&self) -> bool {
        true
    }
    pub fn notify_all(&self) -> usize {
        1
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        lock_api::MutexGuard::unlocked(g, || {
            if mc::managed() {
                mc::point()
            } else {
                std::thread::sleep(Duration::from_micros(200))
            }
        })
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Duration) -> WaitTimeoutResult {
        lock_api::MutexGuard::unlocked(g, || std::thread::sleep(t.min(Duration::from_micros(200))));
        WaitTimeoutResult(false)
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut c: impl FnMut(&mut T) -> bool) {
        while c(&mut **g) {
            self.wait(g)
        }
    }
}

/// One-time initialisation.
pub struct Once(std::sync::Once);
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
impl Once {
    pub const fn new() -> Self {
        Once(std::sync::Once::new())
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        self.0.call_once(f)
    }
}
