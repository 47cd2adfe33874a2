//! In-memory file system of the simulated process.
//!
//! Crash model: process death.  Every completed operation is durable; an operation interrupted by
//! the crash may have taken effect in whole, not at all, or (writes) for any prefix.
use std::collections::BTreeMap;
use std::io;
use std::path::Component;
use std::path::Path;
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::Mutex;
use std::sync::MutexGuard;

use crate::world::current_world;
use crate::world::Fault;
use crate::world::Inner;
use crate::world::World;

#[derive(Debug)]
pub struct Inode {
    pub id: u64,
    pub data: Mutex<Vec<u8>>,
}

#[derive(Debug, Clone)]
pub enum Entry {
    Dir,
    File(Arc<Inode>),
}

#[derive(Debug, Default)]
pub struct FsState {
    pub tree: BTreeMap<PathBuf, Entry>,
    next: u64,
}

impl FsState {
    /// deep copy (what survives the process)
    pub fn snapshot(&self) -> FsState {
        let mut seen: BTreeMap<u64, Arc<Inode>> = BTreeMap::new();
        FsState {
            tree: self
                .tree
                .iter()
                .map(|(p, e)| {
                    let e = match e {
                        Entry::Dir => Entry::Dir,
                        Entry::File(i) => Entry::File(
                            seen.entry(i.id)
                                .or_insert_with(|| {
                                    Arc::new(Inode {
                                        id: i.id,
                                        data: Mutex::new(i.data.lock().unwrap().clone()),
                                    })
                                })
                                .clone(),
                        ),
                    };
                    (p.clone(), e)
                })
                .collect(),
            next: self.next,
        }
    }
    pub fn files(&self) -> Vec<PathBuf> {
        self.tree
            .iter()
            .filter(|(_, e)| matches!(e, Entry::File(_)))
            .map(|(p, _)| p.clone())
            .collect()
    }
    pub fn read(&self, p: &Path) -> Option<Vec<u8>> {
        match self.tree.get(&norm(p)) {
            Some(Entry::File(i)) => Some(i.data.lock().unwrap().clone()),
            _ => None,
        }
    }
    pub fn exists(&self, p: &Path) -> bool {
        p == Path::new("/") || self.tree.contains_key(&norm(p))
    }
    fn is_dir(&self, p: &Path) -> bool {
        p == Path::new("/") || matches!(self.tree.get(p), Some(Entry::Dir))
    }
    pub fn mkdirs(&mut self, p: &Path) {
        let p = norm(p);
        let mut cur = PathBuf::new();
        for c in p.components() {
            cur.push(c);
            if cur != Path::new("/") {
                self.tree.entry(cur.clone()).or_insert(Entry::Dir);
            }
        }
    }
    pub fn put(&mut self, p: &Path, data: Vec<u8>) {
        let p = norm(p);
        if let Some(d) = p.parent() {
            self.mkdirs(d);
        }
        self.next += 1;
        let i = Arc::new(Inode {
            id: self.next,
            data: Mutex::new(data),
        });
        self.tree.insert(p, Entry::File(i));
    }
}

pub fn norm(p: &Path) -> PathBuf {
    let mut out = PathBuf::from("/");
    for c in p.components() {
        match c {
            Component::RootDir | Component::Prefix(_) | Component::CurDir => {}
            Component::ParentDir => {
                out.pop();
            }
            Component::Normal(s) => out.push(s),
        }
    }
    out
}

fn e(errno: i32) -> io::Error {
    io::Error::from_raw_os_error(errno)
}

#[derive(Debug, Clone, Default)]
pub struct Oo {
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub truncate: bool,
    pub create: bool,
    pub create_new: bool,
}

enum Verdict {
    Go,
    Fail(i32, u32),
    Short(u32),
    Crash(u32),
}

/// account for one mutating operation; returns what should happen to it
fn mutating(w: &World, me: usize, what: &'static str) -> (Verdict, u64) {
    if crate::world::is_atomic() {
        return (Verdict::Go, 0);
    }
    w.point(me, what);
    let (v, slow) = {
        let mut g = w.lock();
        g.stats.fs_writes += 1;
        let n = g.stats.fs_writes;
        g.logf(|| format!("fs#{n} {what}"));
        let mut v = Verdict::Go;
        let mut slow = None;
        if g.faults_armed {
            // fault positions count the operations performed while faults are armed
            g.armed_w += 1;
            let n = g.armed_w;
            if g.disk_full.iter().any(|(a, b)| *a <= n && n < *b)
                && matches!(what, "write" | "create" | "mkdir" | "copy" | "rename" | "link")
                && what != "rename"
            {
                g.fired("disk_full");
                v = Verdict::Fail(libc::ENOSPC, 0);
            }
            for f in g.wfaults.remove(&n).unwrap_or_default() {
                match f {
                    Fault::Crash { keep, .. } => {
                        g.fired("crash_at_fs_op");
                        if what == "write" && keep > 0 && keep < 1000 {
                            g.fired("torn_write");
                        }
                        v = Verdict::Crash(keep);
                    }
                    Fault::WriteErr { errno, keep, .. } => {
                        g.fired("write_error");
                        v = Verdict::Fail(errno, keep);
                    }
                    Fault::ShortWrite { keep, .. } if what == "write" => {
                        g.fired("short_write");
                        v = Verdict::Short(keep);
                    }
                    Fault::Slow { ms, .. } => {
                        g.fired("slow_io");
                        slow = Some(ms);
                    }
                    _ => {}
                }
            }
        }
        (v, slow)
    };
    if let Some(ms) = slow {
        w.sleep(me, std::time::Duration::from_millis(ms));
    }
    (v, 0)
}

/// run a mutating metadata operation under the fault plan
fn mutate<R>(
    what: &'static str,
    path: &Path,
    f: impl FnOnce(&mut FsState) -> io::Result<R>,
) -> io::Result<R> {
    let (w, me) = current_world().expect("simulated fs used outside the simulation");
    let (v, _) = mutating(&w, me, what);
    let mut g = w.lock();
    g.logf(|| format!("  {what} {}", path.display()));
    match v {
        Verdict::Fail(errno, _) => Err(e(errno)),
        Verdict::Crash(keep) => {
            if keep >= 500 {
                let _ = f(&mut g.fs);
            }
            w.crash(g)
        }
        _ => f(&mut g.fs),
    }
}

fn observe<R>(what: &'static str, f: impl FnOnce(&mut MutexGuard<'_, Inner>) -> io::Result<R>) -> io::Result<R> {
    let (w, me) = current_world().expect("simulated fs used outside the simulation");
    if crate::world::is_atomic() {
        return f(&mut w.lock());
    }
    w.point(me, what);
    let mut g = w.lock();
    g.stats.fs_reads += 1;
    if g.faults_armed {
        g.armed_r += 1;
        let n = g.armed_r;
        for ft in g.rfaults.remove(&n).unwrap_or_default() {
            if let Fault::ReadErr { errno, .. } = ft {
                g.fired("read_error");
                g.logf(|| format!("  {what} -> errno {errno}"));
                return Err(e(errno));
            }
        }
    }
    f(&mut g)
}

#[derive(Debug)]
pub struct Handle {
    pub inode: Arc<Inode>,
    pub path: PathBuf,
    pub pos: Mutex<u64>,
    pub oo: Oo,
}

pub fn open(path: &Path, oo: &Oo) -> io::Result<Handle> {
    let p = norm(path);
    if !oo.read && !oo.write && !oo.append {
        return Err(e(libc::EINVAL));
    }
    if (oo.truncate || oo.create || oo.create_new) && !oo.write && !oo.append {
        return Err(e(libc::EINVAL));
    }
    let wants_create = (oo.create || oo.create_new) && (oo.write || oo.append);
    let will_mutate = {
        let (w, _) = current_world().expect("simulated fs used outside the simulation");
        let g = w.lock();
        (wants_create && !g.fs.tree.contains_key(&p)) || oo.truncate
    };
    let op = |fs: &mut FsState| -> io::Result<Arc<Inode>> {
        match fs.tree.get(&p) {
            Some(Entry::Dir) => Err(e(libc::EISDIR)),
            Some(Entry::File(i)) => {
                if oo.create_new {
                    return Err(e(libc::EEXIST));
                }
                if oo.truncate {
                    i.data.lock().unwrap().clear();
                }
                Ok(i.clone())
            }
            None => {
                if !wants_create {
                    return Err(e(libc::ENOENT));
                }
                match p.parent() {
                    Some(d) if fs.is_dir(d) => {}
                    _ => return Err(e(libc::ENOENT)),
                }
                fs.next += 1;
                let i = Arc::new(Inode {
                    id: fs.next,
                    data: Mutex::new(vec![]),
                });
                fs.tree.insert(p.clone(), Entry::File(i.clone()));
                Ok(i)
            }
        }
    };
    let inode = if will_mutate {
        mutate("create", path, op)?
    } else {
        observe("open", |g| {
            g.logf(|| format!("  open {}", path.display()));
            op(&mut g.fs)
        })?
    };
    Ok(Handle {
        inode,
        path: p,
        pos: Mutex::new(0),
        oo: oo.clone(),
    })
}

impl Handle {
    pub fn write(&self, buf: &[u8]) -> io::Result<usize> {
        if !self.oo.write && !self.oo.append {
            return Err(e(libc::EBADF));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let (w, me) = current_world().expect("simulated fs used outside the simulation");
        let (v, _) = mutating(&w, me, "write");
        let mut g = w.lock();
        g.logf(|| format!("  write {} bytes to {}", buf.len(), self.path.display()));
        let put = |n: usize| {
            let mut d = self.inode.data.lock().unwrap();
            let mut pos = self.pos.lock().unwrap();
            if self.oo.append {
                *pos = d.len() as u64;
            }
            let at = *pos as usize;
            if d.len() < at {
                d.resize(at, 0);
            }
            let end = at + n;
            if d.len() < end {
                d.resize(end, 0);
            }
            d[at..end].copy_from_slice(&buf[..n]);
            *pos = end as u64;
        };
        let part = |keep: u32| ((buf.len() as u64 * keep.min(1000) as u64) / 1000) as usize;
        match v {
            Verdict::Go => {
                put(buf.len());
                Ok(buf.len())
            }
            Verdict::Short(keep) => {
                let n = part(keep).clamp(1, buf.len());
                put(n);
                Ok(n)
            }
            Verdict::Fail(errno, keep) => {
                put(part(keep));
                Err(e(errno))
            }
            Verdict::Crash(keep) => {
                put(part(keep));
                w.crash(g)
            }
        }
    }
    pub fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.oo.read {
            return Err(e(libc::EBADF));
        }
        let (w, me) = current_world().expect("simulated fs used outside the simulation");
        let atomic = crate::world::is_atomic();
        if !atomic {
            w.point(me, "read");
        }
        let mut g = w.lock();
        if !atomic {
            g.stats.fs_reads += 1;
        }
        let mut limit = buf.len();
        if g.faults_armed && !atomic {
            g.armed_r += 1;
            let n = g.armed_r;
            for f in g.rfaults.remove(&n).unwrap_or_default() {
                match f {
                    Fault::ReadErr { errno, .. } => {
                        g.fired("read_error");
                        g.logf(|| format!("  read {} -> errno {errno}", self.path.display()));
                        return Err(e(errno));
                    }
                    Fault::ShortRead { keep, .. } => {
                        g.fired("short_read");
                        limit = ((limit as u64 * keep.min(1000) as u64) / 1000).max(1) as usize;
                    }
                    _ => {}
                }
            }
        }
        let d = self.inode.data.lock().unwrap();
        let mut pos = self.pos.lock().unwrap();
        let at = (*pos as usize).min(d.len());
        let n = (d.len() - at).min(limit.min(buf.len()));
        buf[..n].copy_from_slice(&d[at..at + n]);
        *pos = (at + n) as u64;
        Ok(n)
    }
    pub fn seek(&self, s: io::SeekFrom) -> io::Result<u64> {
        let len = self.inode.data.lock().unwrap().len() as i64;
        let mut pos = self.pos.lock().unwrap();
        let n = match s {
            io::SeekFrom::Start(v) => v as i64,
            io::SeekFrom::End(v) => len + v,
            io::SeekFrom::Current(v) => *pos as i64 + v,
        };
        if n < 0 {
            return Err(e(libc::EINVAL));
        }
        *pos = n as u64;
        Ok(n as u64)
    }
    pub fn len(&self) -> u64 {
        self.inode.data.lock().unwrap().len() as u64
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        mutate("truncate", &self.path, |_| {
            self.inode.data.lock().unwrap().resize(n as usize, 0);
            Ok(())
        })
    }
    pub fn sync(&self) -> io::Result<()> {
        mutate("fsync", &self.path, |_| Ok(()))
    }
}

pub fn mkdir(p: &Path, all: bool) -> io::Result<()> {
    let n = norm(p);
    mutate("mkdir", p, |fs| {
        if all {
            let mut cur = PathBuf::new();
            for c in n.components() {
                cur.push(c);
                if let Some(Entry::File(_)) = fs.tree.get(&cur) {
                    return Err(e(libc::EEXIST));
                }
            }
            fs.mkdirs(&n);
            return Ok(());
        }
        if fs.exists(&n) {
            return Err(e(libc::EEXIST));
        }
        match n.parent() {
            Some(d) if fs.is_dir(d) => {}
            _ => return Err(e(libc::ENOENT)),
        }
        fs.tree.insert(n.clone(), Entry::Dir);
        Ok(())
    })
}

pub fn unlink(p: &Path) -> io::Result<()> {
    let n = norm(p);
    mutate("unlink", p, |fs| match fs.tree.get(&n) {
        Some(Entry::File(_)) => {
            fs.tree.remove(&n);
            Ok(())
        }
        Some(Entry::Dir) => Err(e(libc::EISDIR)),
        None => Err(e(libc::ENOENT)),
    })
}

pub fn rmdir(p: &Path) -> io::Result<()> {
    let n = norm(p);
    mutate("rmdir", p, |fs| match fs.tree.get(&n) {
        Some(Entry::Dir) => {
            if fs.tree.keys().any(|k| k != &n && k.starts_with(&n)) {
                return Err(e(libc::ENOTEMPTY));
            }
            fs.tree.remove(&n);
            Ok(())
        }
        Some(Entry::File(_)) => Err(e(libc::ENOTDIR)),
        None => Err(e(libc::ENOENT)),
    })
}

pub fn rmtree(p: &Path) -> io::Result<()> {
    let n = norm(p);
    // one operation per removed entry, deepest first: a crash can leave a partial tree
    let victims: Vec<(PathBuf, bool)> = {
        let (w, _) = current_world().expect("simulated fs used outside the simulation");
        let g = w.lock();
        if !g.fs.is_dir(&n) {
            return Err(e(if g.fs.exists(&n) { libc::ENOTDIR } else { libc::ENOENT }));
        }
        g.fs.tree
            .iter()
            .filter(|(k, _)| k.starts_with(&n))
            .map(|(k, v)| (k.clone(), matches!(v, Entry::Dir)))
            .rev()
            .collect()
    };
    for (v, dir) in victims {
        if dir {
            rmdir(&v)?;
        } else {
            unlink(&v)?;
        }
    }
    Ok(())
}

pub fn rename(from: &Path, to: &Path) -> io::Result<()> {
    let (a, b) = (norm(from), norm(to));
    mutate("rename", from, |fs| {
        let ent = fs.tree.get(&a).cloned().ok_or_else(|| e(libc::ENOENT))?;
        match b.parent() {
            Some(d) if fs.is_dir(d) => {}
            _ => return Err(e(libc::ENOENT)),
        }
        match (&ent, fs.tree.get(&b)) {
            (Entry::File(_), Some(Entry::Dir)) => return Err(e(libc::EISDIR)),
            (Entry::Dir, Some(Entry::File(_))) => return Err(e(libc::ENOTDIR)),
            (Entry::Dir, Some(Entry::Dir)) => {
                if fs.tree.keys().any(|k| k != &b && k.starts_with(&b)) {
                    return Err(e(libc::ENOTEMPTY));
                }
            }
            _ => {}
        }
        let moved: Vec<(PathBuf, Entry)> = fs
            .tree
            .iter()
            .filter(|(k, _)| k.starts_with(&a))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        for (k, _) in &moved {
            fs.tree.remove(k);
        }
        for (k, v) in moved {
            let rest = k.strip_prefix(&a).unwrap().to_path_buf();
            let nk = if rest.as_os_str().is_empty() {
                b.clone()
            } else {
                b.join(rest)
            };
            fs.tree.insert(nk, v);
        }
        Ok(())
    })
}

pub fn hard_link(from: &Path, to: &Path) -> io::Result<()> {
    let (a, b) = (norm(from), norm(to));
    mutate("link", from, |fs| {
        let ent = fs.tree.get(&a).cloned().ok_or_else(|| e(libc::ENOENT))?;
        if matches!(ent, Entry::Dir) {
            return Err(e(libc::EPERM));
        }
        match b.parent() {
            Some(d) if fs.is_dir(d) => {}
            _ => return Err(e(libc::ENOENT)),
        }
        if fs.exists(&b) {
            return Err(e(libc::EEXIST));
        }
        fs.tree.insert(b.clone(), ent);
        Ok(())
    })
}

#[derive(Debug, Clone)]
pub struct Meta {
    pub len: u64,
    pub dir: bool,
    pub ino: u64,
}

pub fn stat(p: &Path) -> io::Result<Meta> {
    let n = norm(p);
    observe("stat", |g| {
        if n == Path::new("/") {
            return Ok(Meta {
                len: 0,
                dir: true,
                ino: 0,
            });
        }
        match g.fs.tree.get(&n) {
            Some(Entry::Dir) => Ok(Meta {
                len: 0,
                dir: true,
                ino: 0,
            }),
            Some(Entry::File(i)) => Ok(Meta {
                len: i.data.lock().unwrap().len() as u64,
                dir: false,
                ino: i.id,
            }),
            None => Err(e(libc::ENOENT)),
        }
    })
}

/// children of a directory: (path, is_dir), in an order the seed decides
pub fn list(p: &Path) -> io::Result<Vec<(PathBuf, bool)>> {
    let n = norm(p);
    let orig = p.to_path_buf();
    observe("readdir", |g| {
        if !g.fs.is_dir(&n) {
            return Err(e(if g.fs.exists(&n) { libc::ENOTDIR } else { libc::ENOENT }));
        }
        let mut v: Vec<(PathBuf, bool)> = g
            .fs
            .tree
            .iter()
            .filter(|(k, _)| k.parent() == Some(&n))
            .map(|(k, v)| {
                (
                    orig.join(k.file_name().unwrap()),
                    matches!(v, Entry::Dir),
                )
            })
            .collect();
        let mut r = crate::rng::Rng::new(crate::rng::mix(g.cfg.seed ^ 0xD1));
        r.shuffle(&mut v);
        Ok(v)
    })
}
