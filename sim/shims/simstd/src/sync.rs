pub use ::std::sync::*;

use ::std::ops::Deref;
use ::std::ops::DerefMut;
use ::std::time::Duration;
use simrt::lock::RawMutex;
use simrt::lock::RawRw;

pub struct Mutex<T: ?Sized> {
    raw: RawMutex,
    poison: ::std::sync::atomic::AtomicBool,
    v: ::std::cell::UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    panicking: bool,
    _ns: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex {
            raw: RawMutex::new(),
            poison: ::std::sync::atomic::AtomicBool::new(false),
            v: ::std::cell::UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    fn g(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard {
            m: self,
            panicking: ::std::thread::panicking(),
            _ns: ::std::marker::PhantomData,
        };
        if self.poison.load(::std::sync::atomic::Ordering::SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock();
        self.g()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.raw.try_lock() {
            self.g().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.load(::std::sync::atomic::Ordering::SeqCst)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized> ::std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.m.poison.store(true, ::std::sync::atomic::Ordering::SeqCst);
        }
        self.m.raw.unlock();
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    poison: ::std::sync::atomic::AtomicBool,
    v: ::std::cell::UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    m: &'a RwLock<T>,
    _ns: ::std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    m: &'a RwLock<T>,
    panicking: bool,
    _ns: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock {
            raw: RawRw::new(),
            poison: ::std::sync::atomic::AtomicBool::new(false),
            v: ::std::cell::UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.read();
        let g = RwLockReadGuard {
            m: self,
            _ns: ::std::marker::PhantomData,
        };
        if self.is_poisoned() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.write();
        let g = RwLockWriteGuard {
            m: self,
            panicking: ::std::thread::panicking(),
            _ns: ::std::marker::PhantomData,
        };
        if self.is_poisoned() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.raw.try_read() {
            Ok(RwLockReadGuard {
                m: self,
                _ns: ::std::marker::PhantomData,
            })
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.raw.try_write() {
            Ok(RwLockWriteGuard {
                m: self,
                panicking: ::std::thread::panicking(),
                _ns: ::std::marker::PhantomData,
            })
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.load(::std::sync::atomic::Ordering::SeqCst)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}
impl<T: ?Sized> ::std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.m.raw.unread();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.m.poison.store(true, ::std::sync::atomic::Ordering::SeqCst);
        }
        self.m.raw.unwrite();
    }
}

pub struct Condvar {
    raw: simrt::lock::RawCond,
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            raw: simrt::lock::RawCond::new(),
        }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.raw.wait(&g.m.raw, None);
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let woken = self.raw.wait(&g.m.raw, Some(d));
        Ok((g, WaitTimeoutResult(!woken)))
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        self.raw.notify();
    }
    pub fn notify_all(&self) {
        self.raw.notify();
    }
}

pub mod mpsc {
    pub use ::std::sync::mpsc::RecvError;
    pub use ::std::sync::mpsc::RecvTimeoutError;
    pub use ::std::sync::mpsc::SendError;
    pub use ::std::sync::mpsc::TryRecvError;
    pub use ::std::sync::mpsc::TrySendError;

    use ::std::collections::VecDeque;
    use ::std::sync::Arc;
    use ::std::sync::Mutex;
    use ::std::time::Duration;

    struct Chan<T> {
        q: VecDeque<T>,
        senders: usize,
        rx: bool,
        cap: Option<usize>,
    }
    type C<T> = Arc<Mutex<Chan<T>>>;

    fn key<T>(c: &C<T>) -> usize {
        Arc::as_ptr(c) as *const () as usize
    }

    pub struct Sender<T>(C<T>);
    pub struct SyncSender<T>(C<T>);
    pub struct Receiver<T>(C<T>);

    impl<T> ::std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> ::std::fmt::Debug for SyncSender<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("SyncSender")
        }
    }
    impl<T> ::std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Receiver")
        }
    }

    fn mk<T>(cap: Option<usize>) -> C<T> {
        Arc::new(Mutex::new(Chan {
            q: VecDeque::new(),
            senders: 1,
            rx: true,
            cap,
        }))
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = mk(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = mk(Some(n.max(1)));
        (SyncSender(c.clone()), Receiver(c))
    }

    fn send<T>(c: &C<T>, v: T) -> Result<(), SendError<T>> {
        simrt::point("send");
        loop {
            {
                let mut g = c.lock().unwrap();
                if !g.rx {
                    return Err(SendError(v));
                }
                if g.cap.is_none_or(|n| g.q.len() < n) {
                    g.q.push_back(v);
                    break;
                }
            }
            simrt::block(key(c), None, "send-full");
        }
        simrt::wake(key(c));
        Ok(())
    }

    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            send(&self.0, v)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            send(&self.0, v)
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            simrt::point("try_send");
            {
                let mut g = self.0.lock().unwrap();
                if !g.rx {
                    return Err(TrySendError::Disconnected(v));
                }
                if g.cap.is_some_and(|n| g.q.len() >= n) {
                    return Err(TrySendError::Full(v));
                }
                g.q.push_back(v);
            }
            simrt::wake(key(&self.0));
            Ok(())
        }
    }
    macro_rules! snd {
        ($t:ident) => {
            impl<T> Clone for $t<T> {
                fn clone(&self) -> Self {
                    self.0.lock().unwrap().senders += 1;
                    $t(self.0.clone())
                }
            }
            impl<T> Drop for $t<T> {
                fn drop(&mut self) {
                    let last = {
                        let mut g = self.0.lock().unwrap();
                        g.senders -= 1;
                        g.senders == 0
                    };
                    if last {
                        simrt::wake(key(&self.0));
                    }
                }
            }
        };
    }
    snd!(Sender);
    snd!(SyncSender);

    impl<T> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            simrt::point("try_recv");
            let mut g = self.0.lock().unwrap();
            match g.q.pop_front() {
                Some(v) => {
                    drop(g);
                    simrt::wake(key(&self.0));
                    Ok(v)
                }
                None if g.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            loop {
                match self.try_recv() {
                    Ok(v) => return Ok(v),
                    Err(TryRecvError::Disconnected) => return Err(RecvError),
                    Err(TryRecvError::Empty) => {
                        simrt::block(key(&self.0), None, "recv");
                    }
                }
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            let end = simrt::now_ns() + d.as_nanos() as u64;
            loop {
                match self.try_recv() {
                    Ok(v) => return Ok(v),
                    Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => {
                        let now = simrt::now_ns();
                        if now >= end {
                            return Err(RecvTimeoutError::Timeout);
                        }
                        simrt::block(
                            key(&self.0),
                            Some(Duration::from_nanos(end - now)),
                            "recv_timeout",
                        );
                    }
                }
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let items = {
                let mut g = self.0.lock().unwrap();
                g.rx = false;
                ::std::mem::take(&mut g.q)
            };
            drop(items);
            simrt::wake(key(&self.0));
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}
