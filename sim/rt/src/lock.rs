//! Lock primitives whose waiting is decided by the simulator.  Outside the simulation they spin.
use std::sync::Mutex as M;
use std::time::Duration;

use crate::world::block;
use crate::world::point;
use crate::world::wake;

pub struct RawMutex {
    locked: M<bool>,
}
impl Default for RawMutex {
    fn default() -> Self {
        Self::new()
    }
}
impl RawMutex {
    pub const fn new() -> Self {
        RawMutex {
            locked: M::new(false),
        }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    pub fn try_raw(&self) -> bool {
        let mut l = self.locked.lock().unwrap();
        if *l {
            false
        } else {
            *l = true;
            true
        }
    }
    pub fn try_lock(&self) -> bool {
        point("try_lock");
        self.try_raw()
    }
    pub fn lock(&self) {
        point("lock");
        while !self.try_raw() {
            block(self.key(), None, "lock-wait");
        }
    }
    pub fn lock_timeout(&self, d: Duration) -> bool {
        point("lock");
        let end = crate::now_ns() + d.as_nanos() as u64;
        while !self.try_raw() {
            let now = crate::now_ns();
            if now >= end {
                return false;
            }
            block(self.key(), Some(Duration::from_nanos(end - now)), "lock-wait");
        }
        true
    }
    pub fn unlock(&self) {
        *self.locked.lock().unwrap() = false;
        wake(self.key());
    }
    pub fn is_locked(&self) -> bool {
        *self.locked.lock().unwrap()
    }
}

#[derive(Default)]
struct RwS {
    readers: usize,
    writer: bool,
    waiting_writers: usize,
}

/// writer-preferring, as parking_lot and std on Linux are: a reader waits behind a waiting writer
pub struct RawRw {
    s: M<RwS>,
}
impl Default for RawRw {
    fn default() -> Self {
        Self::new()
    }
}
impl RawRw {
    pub const fn new() -> Self {
        RawRw {
            s: M::new(RwS {
                readers: 0,
                writer: false,
                waiting_writers: 0,
            }),
        }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn try_read_raw(&self, recursive: bool) -> bool {
        let mut s = self.s.lock().unwrap();
        if s.writer || (s.waiting_writers > 0 && !recursive) {
            false
        } else {
            s.readers += 1;
            true
        }
    }
    pub fn try_read(&self) -> bool {
        point("try_read");
        self.try_read_raw(false)
    }
    pub fn read(&self) {
        point("read-lock");
        while !self.try_read_raw(false) {
            block(self.key(), None, "read-lock-wait");
        }
    }
    pub fn read_recursive(&self) {
        point("read-lock");
        while !self.try_read_raw(true) {
            block(self.key(), None, "read-lock-wait");
        }
    }
    fn try_write_raw(&self) -> bool {
        let mut s = self.s.lock().unwrap();
        if s.writer || s.readers > 0 {
            false
        } else {
            s.writer = true;
            true
        }
    }
    pub fn try_write(&self) -> bool {
        point("try_write");
        self.try_write_raw()
    }
    pub fn write(&self) {
        point("write-lock");
        if self.try_write_raw() {
            return;
        }
        self.s.lock().unwrap().waiting_writers += 1;
        while !self.try_write_raw() {
            block(self.key(), None, "write-lock-wait");
        }
        self.s.lock().unwrap().waiting_writers -= 1;
    }
    pub fn unread(&self) {
        self.s.lock().unwrap().readers -= 1;
        wake(self.key());
    }
    pub fn unwrite(&self) {
        self.s.lock().unwrap().writer = false;
        wake(self.key());
    }
    pub fn downgrade(&self) {
        let mut s = self.s.lock().unwrap();
        s.writer = false;
        s.readers += 1;
        drop(s);
        wake(self.key());
    }
}

pub struct RawCond {
    _p: M<()>,
}
impl Default for RawCond {
    fn default() -> Self {
        Self::new()
    }
}
impl RawCond {
    pub const fn new() -> Self {
        RawCond { _p: M::new(()) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    /// wakes are broadcast (spurious wake-ups are legal)
    pub fn wait(&self, m: &RawMutex, d: Option<Duration>) -> bool {
        m.unlock();
        let r = block(self.key(), d, "cond-wait");
        m.lock();
        r
    }
    pub fn notify(&self) {
        point("notify");
        wake(self.key());
    }
}
