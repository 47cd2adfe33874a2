//! In-memory stand-in for a RocksDB pessimistic `TransactionDB`.
//!
//! Semantics taken from RocksDB's documentation of TransactionDB with default options:
//! * `put`/`delete`/`get_for_update` take a per-key lock held until commit/rollback/drop;
//!   waiting longer than the lock timeout (1 s) fails with `TimedOut`.
//! * plain `get` and iterators take no lock: they see the latest committed state (at the time of
//!   the call / of the iterator's creation) overlaid with the transaction's own writes.
//! * a commit is atomic and durable; a crash keeps exactly the committed transactions.
//! * an error returned by commit leaves nothing applied.
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::fmt;
use std::marker::PhantomData;
use std::path::Path;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::sync::Mutex;
use std::sync::MutexGuard;
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    NotSupported,
    InvalidArgument,
    IOError,
    MergeInProgress,
    Incomplete,
    ShutdownInProgress,
    TimedOut,
    Aborted,
    Busy,
    Expired,
    TryAgain,
    CompactionTooLarge,
    ColumnFamilyDropped,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
    message: String,
}

impl Error {
    fn new(kind: ErrorKind, m: &str) -> Self {
        Error {
            kind,
            message: m.to_string(),
        }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Default)]
pub struct Options {
    create: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v;
    }
    pub fn create_missing_column_families(&mut self, _: bool) {}
}

#[derive(Default)]
pub struct TransactionDBOptions {}
impl TransactionDBOptions {
    pub fn new() -> Self {
        Self::default()
    }
}

#[derive(Default)]
pub struct TransactionOptions {
    snapshot: bool,
    timeout: Option<Duration>,
}
impl TransactionOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_snapshot(&mut self, v: bool) {
        self.snapshot = v;
    }
    pub fn set_lock_timeout(&mut self, ms: i64) {
        self.timeout = Some(if ms < 0 { Duration::from_secs(86400) } else { Duration::from_millis(ms as u64) });
    }
    pub fn set_deadlock_detect(&mut self, _: bool) {}
}

#[derive(Default)]
pub struct WriteOptions {}
impl WriteOptions {
    pub fn set_sync(&mut self, _: bool) {}
}

#[derive(Default)]
pub struct ReadOptions {}

pub struct ColumnFamilyDescriptor {
    _name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _o: Options) -> Self {
        Self { _name: name.into() }
    }
}

type Map = BTreeMap<Vec<u8>, (Vec<u8>, u64)>;

/// what survives a crash
#[derive(Default)]
struct Stored {
    map: Mutex<(Map, u64)>,
}

struct Lock {
    owner: u64,
    exclusive: bool,
    shared: Vec<u64>,
}

pub struct MultiThreaded;
pub struct SingleThreaded;

pub struct TransactionDB<T = SingleThreaded> {
    stored: Arc<Stored>,
    locks: Mutex<HashMap<Vec<u8>, Lock>>,
    next: AtomicU64,
    p: PhantomData<fn() -> T>,
}

const TIMEOUT: Duration = Duration::from_millis(1000);

fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl TransactionDB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I>(
        _o: &Options,
        _t: &TransactionDBOptions,
        path: P,
        _cfs: I,
    ) -> Result<Self, Error>
    where
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        Self::open_at(path.as_ref())
    }
    pub fn open<P: AsRef<Path>>(_o: &Options, _t: &TransactionDBOptions, path: P) -> Result<Self, Error> {
        Self::open_at(path.as_ref())
    }
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        Self::open_at(path.as_ref())
    }
    fn open_at(p: &Path) -> Result<Self, Error> {
        simrt::point("kv.open");
        let stored = simrt::durable(&format!("rocksdb:{}", p.display()), Stored::default);
        Ok(TransactionDB {
            stored,
            locks: Mutex::new(HashMap::new()),
            next: AtomicU64::new(1),
            p: PhantomData,
        })
    }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> {
        self.transaction_opt(&WriteOptions::default(), &TransactionOptions::default())
    }
    pub fn transaction_opt(&self, _w: &WriteOptions, o: &TransactionOptions) -> Transaction<'_, TransactionDB> {
        let snap = if o.snapshot { Some(lk(&self.stored.map).1) } else { None };
        Transaction {
            db: self,
            id: self.next.fetch_add(1, Ordering::Relaxed),
            w: Mutex::new(Writes::default()),
            timeout: o.timeout.unwrap_or(TIMEOUT),
            snap,
            p: PhantomData,
        }
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        let tx = self.transaction();
        tx.put(k, v)?;
        tx.commit()
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        let tx = self.transaction();
        tx.delete(k)?;
        tx.commit()
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        simrt::point("kv.get");
        Ok(lk(&self.stored.map).0.get(k.as_ref()).map(|x| x.0.clone()))
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> DBIterator {
        let tx = self.transaction();
        tx.prefix_iterator(p)
    }
    fn try_lock(&self, k: &[u8], tx: u64, exclusive: bool) -> bool {
        let mut g = lk(&self.locks);
        match g.get_mut(k) {
            None => {
                g.insert(k.to_vec(), Lock {
                    owner: if exclusive { tx } else { 0 },
                    exclusive,
                    shared: if exclusive { vec![] } else { vec![tx] },
                });
                true
            }
            Some(l) if l.exclusive => l.owner == tx,
            Some(l) => {
                if exclusive {
                    if l.shared.iter().all(|x| *x == tx) {
                        l.exclusive = true;
                        l.owner = tx;
                        l.shared.clear();
                        true
                    } else {
                        false
                    }
                } else {
                    if !l.shared.contains(&tx) {
                        l.shared.push(tx);
                    }
                    true
                }
            }
        }
    }
    fn wait_key(&self) -> usize {
        self as *const _ as *const u8 as usize
    }
}

#[derive(Default)]
struct Writes {
    w: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
    locked: Vec<Vec<u8>>,
}

pub struct Transaction<'db, DB> {
    db: &'db TransactionDB,
    id: u64,
    w: Mutex<Writes>,
    timeout: Duration,
    snap: Option<u64>,
    #[allow(dead_code)]
    p: PhantomDb<DB>,
}

type PhantomDb<DB> = PhantomData<fn() -> DB>;

impl<'db> Transaction<'db, TransactionDB> {
    fn lock(&self, k: &[u8], exclusive: bool) -> Result<(), Error> {
        simrt::point("kv.lock");
        let mut waited = false;
        let deadline = simrt::now_ns() + self.timeout.as_nanos() as u64;
        while !self.db.try_lock(k, self.id, exclusive) {
            if !waited {
                waited = true;
                simrt::probe("kv_lock_wait");
            }
            let now = simrt::now_ns();
            if now >= deadline {
                simrt::probe("kv_lock_timeout");
                return Err(Error::new(ErrorKind::TimedOut, "Operation timed out: Timeout waiting to lock key"));
            }
            simrt::block(self.db.wait_key(), Some(Duration::from_nanos(deadline - now)), "kv.lock");
        }
        if let Some(s) = self.snap {
            let g = lk(&self.db.stored.map);
            if g.0.get(k).map(|x| x.1).unwrap_or(0) > s {
                return Err(Error::new(ErrorKind::Busy, "Resource busy: write conflict"));
            }
        }
        let mut w = lk(&self.w);
        if !w.locked.iter().any(|x| x == k) {
            w.locked.push(k.to_vec());
        }
        Ok(())
    }
    fn read(&self, k: &[u8]) -> Option<Vec<u8>> {
        if let Some(v) = lk(&self.w).w.get(k) {
            return v.clone();
        }
        lk(&self.db.stored.map).0.get(k).map(|x| x.0.clone())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.lock(k.as_ref(), true)?;
        lk(&self.w).w.insert(k.as_ref().to_vec(), Some(v.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.lock(k.as_ref(), true)?;
        lk(&self.w).w.insert(k.as_ref().to_vec(), None);
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        simrt::point("kv.get");
        if simrt::app_fault(1) {
            return Err(Error::new(ErrorKind::IOError, "IO error: injected read error"));
        }
        Ok(self.read(k.as_ref()))
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, k: K, exclusive: bool) -> Result<Option<Vec<u8>>, Error> {
        self.lock(k.as_ref(), exclusive)?;
        if simrt::app_fault(1) {
            return Err(Error::new(ErrorKind::IOError, "IO error: injected read error"));
        }
        Ok(self.read(k.as_ref()))
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> DBIterator {
        simrt::point("kv.iter");
        let p = p.as_ref().to_vec();
        let g = lk(&self.db.stored.map);
        let w = lk(&self.w);
        let mut m: BTreeMap<Vec<u8>, Vec<u8>> = g.0.range(p.clone()..).map(|(k, v)| (k.clone(), v.0.clone())).collect();
        for (k, v) in w.w.range(p..) {
            match v {
                Some(v) => {
                    m.insert(k.clone(), v.clone());
                }
                None => {
                    m.remove(k);
                }
            }
        }
        DBIterator { it: m.into_iter() }
    }
    pub fn commit(self) -> Result<(), Error> {
        let w = std::mem::take(&mut lk(&self.w).w);
        let r = simrt::commit_point(|| {
            let mut g = lk(&self.db.stored.map);
            g.1 += 1;
            let seq = g.1;
            for (k, v) in w {
                match v {
                    Some(v) => {
                        g.0.insert(k, (v, seq));
                    }
                    None => {
                        g.0.remove(&k);
                    }
                }
            }
        });
        self.release();
        match r {
            simrt::CommitFault::None => Ok(()),
            simrt::CommitFault::Fail => Err(Error::new(ErrorKind::IOError, "IO error: injected commit failure")),
        }
    }
    pub fn rollback(&self) -> Result<(), Error> {
        lk(&self.w).w.clear();
        self.release();
        Ok(())
    }
}

impl<DB> Transaction<'_, DB> {
    fn release(&self) {
        let locked = std::mem::take(&mut lk(&self.w).locked);
        if locked.is_empty() {
            return;
        }
        {
            let mut g = lk(&self.db.locks);
            for k in locked {
                if let Some(l) = g.get_mut(&k) {
                    l.shared.retain(|x| *x != self.id);
                    if l.owner == self.id || (!l.exclusive && l.shared.is_empty()) {
                        g.remove(&k);
                    }
                }
            }
        }
        simrt::wake(self.db.wait_key());
    }
}

impl<DB> Drop for Transaction<'_, DB> {
    fn drop(&mut self) {
        self.release();
    }
}

pub struct DBIterator {
    it: std::collections::btree_map::IntoIter<Vec<u8>, Vec<u8>>,
}
impl Iterator for DBIterator {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.it.next().map(|(k, v)| Ok((k.into_boxed_slice(), v.into_boxed_slice())))
    }
}
