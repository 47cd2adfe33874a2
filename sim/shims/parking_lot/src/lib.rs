//! parking_lot with waiting decided by the simulator.
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::ops::DerefMut;
use std::time::Duration;

use simrt::lock::RawMutex as SM;
use simrt::lock::RawRw;

pub struct Mutex<T: ?Sized> {
    raw: SM,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    raw: &'a SM,
    p: *mut T,
    _m: PhantomData<(&'a mut T, *const ())>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
pub type MappedMutexGuard<'a, T> = MutexGuard<'a, T>;

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::new(v)
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex {
            raw: SM::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn g(&self) -> MutexGuard<'_, T> {
        MutexGuard {
            raw: &self.raw,
            p: self.v.get(),
            _m: PhantomData,
        }
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.lock();
        self.g()
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.raw.try_lock().then(|| self.g())
    }
    pub fn try_lock_for(&self, d: Duration) -> Option<MutexGuard<'_, T>> {
        self.raw.lock_timeout(d).then(|| self.g())
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        self.raw.is_locked()
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedMutexGuard<'a, U> {
        let p = f(unsafe { &mut *s.p }) as *mut U;
        let raw = s.raw;
        std::mem::forget(s);
        MutexGuard {
            raw,
            p,
            _m: PhantomData,
        }
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn unlocked<F: FnOnce() -> U, U>(s: &mut Self, f: F) -> U {
        s.raw.unlock();
        let r = f();
        s.raw.lock();
        r
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.p }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.p }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}

pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    raw: &'a RawRw,
    p: *const T,
    _m: PhantomData<(&'a T, *const ())>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    raw: &'a RawRw,
    p: *mut T,
    _m: PhantomData<(&'a mut T, *const ())>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
pub type MappedRwLockReadGuard<'a, T> = RwLockReadGuard<'a, T>;
pub type MappedRwLockWriteGuard<'a, T> = RwLockWriteGuard<'a, T>;

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock {
            raw: RawRw::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rg(&self) -> RwLockReadGuard<'_, T> {
        RwLockReadGuard {
            raw: &self.raw,
            p: self.v.get(),
            _m: PhantomData,
        }
    }
    fn wg(&self) -> RwLockWriteGuard<'_, T> {
        RwLockWriteGuard {
            raw: &self.raw,
            p: self.v.get(),
            _m: PhantomData,
        }
    }
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.read();
        self.rg()
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.raw.read_recursive();
        self.rg()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.write();
        self.wg()
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.raw.try_read().then(|| self.rg())
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw.try_write().then(|| self.wg())
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> RwLockReadGuard<'a, U> {
        let p = f(unsafe { &*s.p }) as *const U;
        let raw = s.raw;
        std::mem::forget(s);
        RwLockReadGuard {
            raw,
            p,
            _m: PhantomData,
        }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> RwLockWriteGuard<'a, U> {
        let p = f(unsafe { &mut *s.p }) as *mut U;
        let raw = s.raw;
        std::mem::forget(s);
        RwLockWriteGuard {
            raw,
            p,
            _m: PhantomData,
        }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let (raw, p) = (s.raw, s.p as *const T);
        std::mem::forget(s);
        raw.downgrade();
        RwLockReadGuard {
            raw,
            p,
            _m: PhantomData,
        }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.p }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.p }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.p }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unread();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unwrite();
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

pub struct Condvar {
    raw: simrt::lock::RawCond,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            raw: simrt::lock::RawCond::new(),
        }
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.raw.wait(g.raw, None);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.raw.wait(g.raw, Some(d)))
    }
    pub fn notify_one(&self) -> bool {
        self.raw.notify();
        true
    }
    pub fn notify_all(&self) -> usize {
        self.raw.notify();
        1
    }
}
