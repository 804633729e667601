//! Files of the virtual machine live in memory.
pub use std::fs::*;

use crate::rt;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::Path;
use std::rc::Rc;

#[derive(Default)]
pub struct Fs {
    pub files: BTreeMap<String, Rc<Vec<u8>>>,
    pub open: usize,
    pub opened: u64,
    /// The files read while logs are captured, and how many log lines there were.
    pub reads: Vec<(String, usize)>,
}

const MAX_OPEN: usize = 1_000_000;

/// For the harness.
pub fn set_file(path: &str, data: &[u8]) {
    rt::k().fs.files.insert(path.to_string(), Rc::new(data.to_vec()));
}

pub struct File {
    data: Rc<Vec<u8>>,
    pos: Cell<usize>,
}
unsafe impl Send for File {}
unsafe impl Sync for File {}

fn lookup(p: &Path) -> io::Result<Rc<Vec<u8>>> {
    let s = p.to_string_lossy();
    if s.as_bytes().contains(&0) {
        return Err(io::Error::new(io::ErrorKind::InvalidInput, "file name contained an unexpected NUL byte"));
    }
    if rt::k().capture_logs {
        let n = rt::k().logs.len();
        rt::k().fs.reads.push((s.to_string(), n));
    }
    rt::k().fs.files.get(&*s).cloned().ok_or_else(|| io::Error::from_raw_os_error(libc::ENOENT))
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        rt::point();
        let fs = &mut rt::k().fs;
        if fs.open >= MAX_OPEN {
            return Err(io::Error::from_raw_os_error(libc::EMFILE));
        }
        let data = lookup(p.as_ref())?;
        let fs = &mut rt::k().fs;
        fs.open += 1;
        fs.opened += 1;
        Ok(File { data, pos: Cell::new(0) })
    }
    pub fn len_hint(&self) -> usize {
        self.data.len()
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        Ok(Metadata { len: self.data.len() as u64 })
    }
    pub fn try_clone(&self) -> io::Result<File> {
        rt::k().fs.open += 1;
        Ok(File { data: self.data.clone(), pos: self.pos.clone() })
    }
}
impl Drop for File {
    fn drop(&mut self) {
        let fs = &mut rt::k().fs;
        fs.open = fs.open.saturating_sub(1);
    }
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (&*self).read(b)
    }
}
impl Read for &File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let pos = self.pos.get().min(self.data.len());
        let n = b.len().min(self.data.len() - pos);
        b[..n].copy_from_slice(&self.data[pos..pos + n]);
        self.pos.set(pos + n);
        Ok(n)
    }
}
impl Seek for File {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        (&*self).seek(s)
    }
}
impl Seek for &File {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let p = match s {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.len() as i64 + n,
            SeekFrom::Current(n) => self.pos.get() as i64 + n,
        };
        if p < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos.set(p as usize);
        Ok(p as u64)
    }
}
impl Write for File {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Err(io::Error::from_raw_os_error(libc::EBADF))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("File")
    }
}

pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    rt::point();
    Ok(lookup(p.as_ref())?.to_vec())
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let v = read(p)?;
    String::from_utf8(v).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
}

/// What is known of a file: only regular files exist.
#[derive(Clone, Debug)]
pub struct Metadata {
    len: u64,
}
impl Metadata {
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn is_file(&self) -> bool {
        true
    }
    pub fn is_dir(&self) -> bool {
        false
    }
    pub fn is_symlink(&self) -> bool {
        false
    }
}
pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    Ok(Metadata { len: lookup(p.as_ref())?.len() as u64 })
}
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
    Ok(lookup(p.as_ref()).is_ok())
}
pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<std::path::PathBuf> {
    lookup(p.as_ref())?;
    Ok(p.as_ref().to_path_buf())
}

/// Files can be opened for reading only.
#[derive(Clone, Debug, Default)]
pub struct OpenOptions {
    read: bool,
    write: bool,
}
impl OpenOptions {
    pub fn new() -> OpenOptions {
        OpenOptions::default()
    }
    pub fn read(&mut self, on: bool) -> &mut Self {
        self.read = on;
        self
    }
    pub fn write(&mut self, on: bool) -> &mut Self {
        self.write |= on;
        self
    }
    pub fn append(&mut self, on: bool) -> &mut Self {
        self.write |= on;
        self
    }
    pub fn create(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn truncate(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        if self.write {
            rt::point();
            return Err(io::Error::from_raw_os_error(libc::EACCES));
        }
        File::open(p)
    }
}
