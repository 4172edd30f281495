//! Same API as `parking_lot` (the parts a library like this one uses), with blocking and wake-ups
//! decided by the simulator. On threads the simulator does not control it degrades to spinning.

use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub use lock_api;

pub struct RawMutex(AtomicBool);

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self(AtomicBool::new(false));
    type GuardMarker = lock_api::GuardNoSend;

    fn lock(&self) {
        dst::point();
        while self.0.swap(true, Ordering::SeqCst) {
            dst::block_on(self as *const _ as usize);
        }
        // others run into the lock now
        dst::point();
    }
    fn try_lock(&self) -> bool {
        dst::point();
        !self.0.swap(true, Ordering::SeqCst)
    }
    unsafe fn unlock(&self) {
        self.0.store(false, Ordering::SeqCst);
        dst::wake(self as *const _ as usize);
        dst::point();
    }
    fn is_locked(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        unsafe { lock_api::RawMutex::unlock(self) }
    }
}

impl RawMutex {
    fn relock(&self) {
        while self.0.swap(true, Ordering::SeqCst) {
            dst::block_on(self as *const _ as usize);
        }
    }
    fn unlock_quiet(&self) {
        self.0.store(false, Ordering::SeqCst);
        dst::wake(self as *const _ as usize);
    }
}

pub struct RawRwLock(AtomicI64);

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self(AtomicI64::new(0));
    type GuardMarker = lock_api::GuardNoSend;

    fn lock_shared(&self) {
        dst::point();
        while !self.try_s() {
            dst::block_on(self as *const _ as usize);
        }
        dst::point();
    }
    fn try_lock_shared(&self) -> bool {
        dst::point();
        self.try_s()
    }
    unsafe fn unlock_shared(&self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
        dst::wake(self as *const _ as usize);
        dst::point();
    }
    fn lock_exclusive(&self) {
        dst::point();
        while !self.try_x() {
            dst::block_on(self as *const _ as usize);
        }
        dst::point();
    }
    fn try_lock_exclusive(&self) -> bool {
        dst::point();
        self.try_x()
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.store(0, Ordering::SeqCst);
        dst::wake(self as *const _ as usize);
        dst::point();
    }
    fn is_locked(&self) -> bool {
        self.0.load(Ordering::SeqCst) != 0
    }
}

impl RawRwLock {
    fn try_s(&self) -> bool {
        self.0
            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| (v >= 0).then_some(v + 1))
            .is_ok()
    }
    fn try_x(&self) -> bool {
        self.0
            .compare_exchange(0, -1, Ordering::SeqCst, Ordering::SeqCst)
            .is_ok()
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.store(1, Ordering::SeqCst);
        dst::wake(self as *const _ as usize);
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::from_raw(<RawMutex as lock_api::RawMutex>::INIT, val)
}

pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::from_raw(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);

impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

/// Condition variable. Has no spurious wake-ups, like the real one.
#[derive(Default)]
pub struct Condvar(AtomicU64);

impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Self(AtomicU64::new(0))
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    pub fn notify_one(&self) -> bool {
        dst::point();
        self.0.fetch_add(1, Ordering::SeqCst);
        let n = dst::cv_notify(self.addr(), false);
        dst::point();
        n > 0
    }
    pub fn notify_all(&self) -> usize {
        dst::point();
        self.0.fetch_add(1, Ordering::SeqCst);
        let n = dst::cv_notify(self.addr(), true);
        dst::point();
        n
    }
    fn wait_ms<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, ms: Option<u64>) -> bool {
        let raw = unsafe { MutexGuard::mutex(guard).raw() };
        if dst::tid().is_none() {
            let r#gen = self.0.load(Ordering::SeqCst);
            let start = Instant::now();
            raw.unlock_quiet();
            let mut timed_out = false;
            while self.0.load(Ordering::SeqCst) == r#gen {
                std::thread::yield_now();
                if ms.is_some_and(|ms| start.elapsed() >= Duration::from_millis(ms)) {
                    timed_out = true;
                    break;
                }
            }
            raw.relock();
            return timed_out;
        }
        let timed_out = {
            // relock even when the wait unwinds because the run is being torn down
            struct Relock<'a>(&'a RawMutex);
            impl Drop for Relock<'_> {
                fn drop(&mut self) {
                    self.0.relock();
                }
            }
            let _r = Relock(raw);
            dst::cv_wait(self.addr(), ms, || raw.unlock_quiet())
        };
        timed_out
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        self.wait_ms(guard, None);
    }
    pub fn wait_for<T: ?Sized>(
        &self,
        guard: &mut MutexGuard<'_, T>,
        timeout: Duration,
    ) -> WaitTimeoutResult {
        WaitTimeoutResult(self.wait_ms(guard, Some(timeout.as_millis() as u64)))
    }
    pub fn wait_until<T: ?Sized>(
        &self,
        guard: &mut MutexGuard<'_, T>,
        timeout: Instant,
    ) -> WaitTimeoutResult {
        let d = timeout.saturating_duration_since(Instant::now());
        self.wait_for(guard, d)
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        guard: &mut MutexGuard<'_, T>,
        mut condition: F,
    ) {
        while condition(&mut *guard) {
            self.wait_ms(guard, None);
        }
    }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        guard: &mut MutexGuard<'_, T>,
        mut condition: F,
        timeout: Duration,
    ) -> WaitTimeoutResult {
        let start = dst::now();
        let total = timeout.as_millis() as u64;
        while condition(&mut *guard) {
            let used = dst::now().saturating_sub(start);
            if used >= total || self.wait_ms(guard, Some(total - used)) {
                return WaitTimeoutResult(condition(&mut *guard));
            }
        }
        WaitTimeoutResult(false)
    }
    pub fn wait_while_until<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        guard: &mut MutexGuard<'_, T>,
        condition: F,
        timeout: Instant,
    ) -> WaitTimeoutResult {
        let d = timeout.saturating_duration_since(Instant::now());
        self.wait_while_for(guard, condition, d)
    }
}
