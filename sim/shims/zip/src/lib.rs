//! Stand-in for zip, write side: one entry, stored, `SIMZIP <name> <password or ->\n`, the data in
//! length-prefixed blocks, an end block with the total length. A file is complete only with the end block.
use std::fmt;
use std::io;
use std::io::Seek;
use std::io::Write;

pub mod result {
    use super::*;

    #[derive(Debug)]
    pub enum ZipError {
        Io(io::Error),
        InvalidArchive(&'static str),
        FileNotFound,
    }
    impl fmt::Display for ZipError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ZipError {}
    impl From<io::Error> for ZipError {
        fn from(e: io::Error) -> Self {
            ZipError::Io(e)
        }
    }
    pub type ZipResult<T> = Result<T, ZipError>;
}
use result::ZipResult;

#[derive(Clone, Copy, Debug)]
pub enum CompressionMethod {
    Stored,
    Deflated,
}

#[derive(Clone, Copy, Debug)]
pub enum AesMode {
    Aes128,
    Aes192,
    Aes256,
}

pub mod write {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct SimpleFileOptions<'k> {
        pub(crate) pwd: Option<&'k str>,
    }

    impl<'k> SimpleFileOptions<'k> {
        pub fn compression_method(self, _m: super::CompressionMethod) -> Self {
            self
        }

        pub fn large_file(self, _l: bool) -> Self {
            self
        }

        pub fn unix_permissions(self, _m: u32) -> Self {
            self
        }

        pub fn with_aes_encryption(self, _m: super::AesMode, pwd: &'k str) -> Self {
            SimpleFileOptions { pwd: Some(pwd) }
        }
    }
}

fn fault(kind: u32) -> io::Result<()> {
    if simrt::app_fault(kind) {
        return Err(io::Error::other("injected"));
    }
    Ok(())
}

pub struct ZipWriter<W: Write + Seek> {
    w: W,
    n: u64,
}

impl<W: Write + Seek> ZipWriter<W> {
    pub fn new(w: W) -> Self {
        ZipWriter { w, n: 0 }
    }

    pub fn start_file<S: ToString>(&mut self, name: S, o: write::SimpleFileOptions<'_>) -> ZipResult<()> {
        fault(4)?;
        writeln!(self.w, "SIMZIP {} {}", name.to_string(), o.pwd.unwrap_or("-"))?;
        Ok(())
    }

    pub fn finish(mut self) -> ZipResult<W> {
        fault(5)?;
        let mut end = [0u8; 16];
        end[..8].copy_from_slice(&u64::MAX.to_le_bytes());
        end[8..].copy_from_slice(&self.n.to_le_bytes());
        self.w.write_all(&end)?;
        self.w.flush()?;
        Ok(self.w)
    }
}

impl<W: Write + Seek> Write for ZipWriter<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut v = (b.len() as u64).to_le_bytes().to_vec();
        v.extend_from_slice(b);
        self.w.write_all(&v)?;
        self.n += b.len() as u64;
        Ok(b.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        self.w.flush()
    }
}

/// what a reader makes of a file: the entry, or why there is none
pub fn unpack(file: &[u8], pwd: Option<&str>) -> Result<Vec<u8>, String> {
    let nl = file.iter().position(|c| *c == b'\n').ok_or("no header")?;
    let head = String::from_utf8_lossy(&file[..nl]).to_string();
    if head != format!("SIMZIP backup {}", pwd.unwrap_or("-")) {
        return Err(format!("header {head:?}"));
    }
    let mut p = nl + 1;
    let mut out = vec![];
    loop {
        let l = u64::from_le_bytes(file.get(p..p + 8).ok_or("no end block")?.try_into().unwrap());
        p += 8;
        if l == u64::MAX {
            let n = u64::from_le_bytes(file.get(p..p + 8).ok_or("end block cut")?.try_into().unwrap());
            if n != out.len() as u64 || p + 8 != file.len() {
                return Err("lengths differ".into());
            }
            return Ok(out);
        }
        out.extend_from_slice(file.get(p..p + l as usize).ok_or("block cut")?);
        p += l as usize;
    }
}
