//! Stand-in for `parking_lot` 0.10 whose raw locks are scheduling points of `mcsched`.
//! The guard types, traits and lock wrappers are the real ones from `lock_api`.
pub use lock_api;
use lock_api::{GetThreadId, GuardNoSend};
use mcsched::{CondState, Lock};
use std::time::{Duration, Instant};

pub struct RawMutex(Lock);
unsafe impl Sync for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex(Lock::new());
    type GuardMarker = GuardNoSend;
    fn lock(&self) {
        self.0.lock_exclusive()
    }
    fn try_lock(&self) -> bool {
        self.0.try_lock_exclusive()
    }
    fn unlock(&self) {
        self.0.unlock_exclusive()
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    fn unlock_fair(&self) {
        self.0.unlock_exclusive()
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        self.0.try_lock_exclusive()
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        self.0.try_lock_exclusive()
    }
}
pub type RawFairMutex = RawMutex;

pub struct RawRwLock(Lock);
unsafe impl Sync for RawRwLock {}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock(Lock::new());
    type GuardMarker = GuardNoSend;
    fn lock_shared(&self) {
        self.0.lock_shared(false)
    }
    fn try_lock_shared(&self) -> bool {
        self.0.try_lock_shared(false)
    }
    fn unlock_shared(&self) {
        self.0.unlock_shared()
    }
    fn lock_exclusive(&self) {
        self.0.lock_exclusive()
    }
    fn try_lock_exclusive(&self) -> bool {
        self.0.try_lock_exclusive()
    }
    fn unlock_exclusive(&self) {
        self.0.unlock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    fn unlock_shared_fair(&self) {
        self.0.unlock_shared()
    }
    fn unlock_exclusive_fair(&self) {
        self.0.unlock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    fn downgrade(&self) {
        self.0.downgrade()
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        self.0.try_lock_shared(false)
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        self.0.try_lock_shared(false)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        self.0.try_lock_exclusive()
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        self.0.try_lock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.0.lock_shared(true)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.0.try_lock_shared(true)
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _: Duration) -> bool {
        self.0.try_lock_shared(true)
    }
    fn try_lock_shared_recursive_until(&self, _: Instant) -> bool {
        self.0.try_lock_shared(true)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.0.lock_upgradable()
    }
    fn try_lock_upgradable(&self) -> bool {
        self.0.try_lock_upgradable()
    }
    fn unlock_upgradable(&self) {
        self.0.unlock_upgradable()
    }
    fn upgrade(&self) {
        self.0.upgrade()
    }
    fn try_upgrade(&self) -> bool {
        self.0.try_upgrade()
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    fn unlock_upgradable_fair(&self) {
        self.0.unlock_upgradable()
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    fn downgrade_upgradable(&self) {
        self.0.downgrade_upgradable()
    }
    fn downgrade_to_upgradable(&self) {
        self.0.downgrade_to_upgradable()
    }
}
unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, _: Duration) -> bool {
        self.0.try_lock_upgradable()
    }
    fn try_lock_upgradable_until(&self, _: Instant) -> bool {
        self.0.try_lock_upgradable()
    }
    fn try_upgrade_for(&self, _: Duration) -> bool {
        self.0.try_upgrade()
    }
    fn try_upgrade_until(&self, _: Instant) -> bool {
        self.0.try_upgrade()
    }
}

pub struct RawThreadId;
unsafe impl GetThreadId for RawThreadId {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;

pub fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::new(val)
}
pub fn const_fair_mutex<T>(val: T) -> FairMutex<T> {
    Mutex::new(val)
}
pub fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::new(val)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar(CondState);
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(CondState::new())
    }
    pub fn notify_one(&self) -> bool {
        self.0.notify(false) > 0
    }
    pub fn notify_all(&self) -> usize {
        self.0.notify(true)
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let raw = unsafe { MutexGuard::mutex(guard).raw() };
        self.0.wait(&raw.0)
    }
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _: Duration) -> WaitTimeoutResult {
        // a timeout may always fire
        MutexGuard::bump_compat(guard);
        WaitTimeoutResult(true)
    }
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _: Instant) -> WaitTimeoutResult {
        MutexGuard::bump_compat(guard);
        WaitTimeoutResult(true)
    }
}
trait Bump {
    fn bump_compat(g: &mut Self);
}
impl<T: ?Sized> Bump for MutexGuard<'_, T> {
    fn bump_compat(g: &mut Self) {
        MutexGuard::unlocked(g, || ())
    }
}

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
impl OnceState {
    pub fn poisoned(self) -> bool {
        self == OnceState::Poisoned
    }
    pub fn done(self) -> bool {
        self == OnceState::Done
    }
}
pub struct Once(Lock, std::sync::atomic::AtomicU8);
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
impl Once {
    pub const fn new() -> Once {
        Once(Lock::new(), std::sync::atomic::AtomicU8::new(0))
    }
    pub fn state(&self) -> OnceState {
        if self.1.load(std::sync::atomic::Ordering::Relaxed) == 1 {
            OnceState::Done
        } else if self.0.is_locked() {
            OnceState::InProgress
        } else {
            OnceState::New
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.call_once_force(|_| f())
    }
    pub fn call_once_force<F: FnOnce(OnceState)>(&self, f: F) {
        self.0.lock_exclusive();
        if self.1.load(std::sync::atomic::Ordering::Relaxed) == 0 {
            f(OnceState::New);
            self.1.store(1, std::sync::atomic::Ordering::Relaxed);
        }
        self.0.unlock_exclusive();
    }
}
