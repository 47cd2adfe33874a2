use ::std::ffi::OsString;
use ::std::io;
use ::std::io::Read;
use ::std::io::Seek;
use ::std::io::SeekFrom;
use ::std::io::Write;
use ::std::path::Path;
use ::std::path::PathBuf;

use simrt::fs as sfs;
use simrt::in_sim;

pub use ::std::fs::Permissions;

#[derive(Debug)]
pub enum File {
    Real(::std::fs::File),
    Sim(::std::sync::Arc<sfs::Handle>),
}

#[derive(Debug, Clone)]
pub enum Metadata {
    Real(::std::fs::Metadata),
    Sim(sfs::Meta),
}

impl Metadata {
    pub fn len(&self) -> u64 {
        match self {
            Metadata::Real(m) => m.len(),
            Metadata::Sim(m) => m.len,
        }
    }
    pub fn is_dir(&self) -> bool {
        match self {
            Metadata::Real(m) => m.is_dir(),
            Metadata::Sim(m) => m.dir,
        }
    }
    pub fn is_file(&self) -> bool {
        match self {
            Metadata::Real(m) => m.is_file(),
            Metadata::Sim(m) => !m.dir,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_symlink(&self) -> bool {
        false
    }
    pub(crate) fn ino_(&self) -> u64 {
        match self {
            Metadata::Real(_) => 0,
            Metadata::Sim(m) => m.ino,
        }
    }
}

#[derive(Debug, Clone)]
pub struct OpenOptions {
    oo: sfs::Oo,
}

impl Default for OpenOptions {
    fn default() -> Self {
        Self::new()
    }
}

impl OpenOptions {
    pub fn new() -> Self {
        OpenOptions {
            oo: sfs::Oo::default(),
        }
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.oo.read = v;
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.oo.write = v;
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.oo.append = v;
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.oo.truncate = v;
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.oo.create = v;
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.oo.create_new = v;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        if in_sim() {
            return Ok(File::Sim(::std::sync::Arc::new(sfs::open(
                p.as_ref(),
                &self.oo,
            )?)));
        }
        ::std::fs::OpenOptions::new()
            .read(self.oo.read)
            .write(self.oo.write)
            .append(self.oo.append)
            .truncate(self.oo.truncate)
            .create(self.oo.create)
            .create_new(self.oo.create_new)
            .open(p)
            .map(File::Real)
    }
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new()
            .write(true)
            .create(true)
            .truncate(true)
            .open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new()
            .read(true)
            .write(true)
            .create_new(true)
            .open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        Ok(match self {
            File::Real(f) => Metadata::Real(f.metadata()?),
            File::Sim(h) => Metadata::Sim(sfs::Meta {
                len: h.len(),
                dir: false,
                ino: h.inode.id,
            }),
        })
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        match self {
            File::Real(f) => f.set_len(n),
            File::Sim(h) => h.set_len(n),
        }
    }
    pub fn sync_all(&self) -> io::Result<()> {
        match self {
            File::Real(f) => f.sync_all(),
            File::Sim(h) => h.sync(),
        }
    }
    pub fn sync_data(&self) -> io::Result<()> {
        self.sync_all()
    }
    pub fn try_clone(&self) -> io::Result<File> {
        Ok(match self {
            File::Real(f) => File::Real(f.try_clone()?),
            File::Sim(h) => File::Sim(h.clone()),
        })
    }
}

impl Read for &File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self {
            File::Real(f) => (&mut &*f).read(buf),
            File::Sim(h) => h.read(buf),
        }
    }
}
impl Write for &File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self {
            File::Real(f) => (&mut &*f).write(buf),
            File::Sim(h) => h.write(buf),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for &File {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        match self {
            File::Real(f) => (&mut &*f).seek(s),
            File::Sim(h) => h.seek(s),
        }
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        (&*self).read(buf)
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        (&*self).write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        (&*self).seek(s)
    }
}

pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    if in_sim() {
        sfs::mkdir(p.as_ref(), false)
    } else {
        ::std::fs::create_dir(p)
    }
}
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    if in_sim() {
        sfs::mkdir(p.as_ref(), true)
    } else {
        ::std::fs::create_dir_all(p)
    }
}
fn outside(what: &str) -> io::Error {
    io::Error::other(format!("{what} outside the simulation is refused"))
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    if in_sim() {
        sfs::unlink(p.as_ref())
    } else {
        Err(outside("remove_file"))
    }
}
pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    if in_sim() {
        sfs::rmdir(p.as_ref())
    } else {
        Err(outside("remove_dir"))
    }
}
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    if in_sim() {
        sfs::rmtree(p.as_ref())
    } else {
        Err(outside("remove_dir_all"))
    }
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    if in_sim() {
        sfs::rename(a.as_ref(), b.as_ref())
    } else {
        Err(outside("rename"))
    }
}
pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    if in_sim() {
        sfs::hard_link(a.as_ref(), b.as_ref())
    } else {
        Err(outside("hard_link"))
    }
}
pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    if in_sim() {
        sfs::stat(p.as_ref()).map(Metadata::Sim)
    } else {
        ::std::fs::metadata(p).map(Metadata::Real)
    }
}
pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    metadata(p)
}
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
    match metadata(p) {
        Ok(_) => Ok(true),
        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
        Err(e) => Err(e),
    }
}
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let mut v = String::new();
    File::open(p)?.read_to_string(&mut v)?;
    Ok(v)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    File::create(p)?.write_all(c.as_ref())
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
    let mut r = File::open(a)?;
    let mut w = File::create(b)?;
    io::copy(&mut r, &mut w)
}
pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> {
    if in_sim() {
        sfs::stat(p.as_ref())?;
        Ok(sfs::norm(p.as_ref()))
    } else {
        ::std::fs::canonicalize(p)
    }
}

#[derive(Debug)]
pub struct DirEntry {
    path: PathBuf,
    dir: bool,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FileType {
    dir: bool,
}
impl FileType {
    pub fn is_dir(&self) -> bool {
        self.dir
    }
    pub fn is_file(&self) -> bool {
        !self.dir
    }
    pub fn is_symlink(&self) -> bool {
        false
    }
}
impl DirEntry {
    pub fn path(&self) -> PathBuf {
        self.path.clone()
    }
    pub fn file_name(&self) -> OsString {
        self.path.file_name().unwrap_or_default().to_os_string()
    }
    pub fn file_type(&self) -> io::Result<FileType> {
        Ok(FileType { dir: self.dir })
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        metadata(&self.path)
    }
}
#[derive(Debug)]
pub struct ReadDir {
    v: ::std::vec::IntoIter<(PathBuf, bool)>,
}
impl Iterator for ReadDir {
    type Item = io::Result<DirEntry>;
    fn next(&mut self) -> Option<Self::Item> {
        self.v.next().map(|(path, dir)| Ok(DirEntry { path, dir }))
    }
}
pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> {
    if in_sim() {
        return Ok(ReadDir {
            v: sfs::list(p.as_ref())?.into_iter(),
        });
    }
    let mut v = vec![];
    for e in ::std::fs::read_dir(p)? {
        let e = e?;
        v.push((e.path(), e.file_type()?.is_dir()));
    }
    Ok(ReadDir { v: v.into_iter() })
}
