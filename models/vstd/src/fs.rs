//! `fs` whose files live in memory only: creating, writing, renaming and removing touch no disk.
//! Reading looks there first and then at the real thing.
pub use ::std::fs::*;
use ::std::cell::RefCell;
use ::std::io::{self, Read, Seek, SeekFrom, Write};
use ::std::path::Path;
/// symbolic runs have one thread
struct One<T>(T);
unsafe impl<T> Sync for One<T> {}
static DISK: One<RefCell<Vec<(Option<String>, Vec<u8>)>>> = One(RefCell::new(Vec::new()));
static LIMIT: One<::std::cell::Cell<usize>> = One(::std::cell::Cell::new(usize::MAX));
/// files hold at most n bytes: the write that crosses the limit is short, later ones fail
pub fn short_write(n: usize) { LIMIT.0.set(n) }
fn name(p: &Path) -> String { let s = p.to_string_lossy().into_owned(); match s.strip_prefix("./") { Some(r) => r.to_owned(), None => s } }
fn find(p: &Path) -> Option<usize> { let n = name(p); DISK.0.borrow().iter().position(|e| e.0.as_deref() == Some(n.as_str())) }
fn no() -> io::Error { io::ErrorKind::NotFound.into() }
pub struct File { i: usize, pos: usize, append: bool }
#[derive(Clone)]
pub struct OpenOptions { read: bool, write: bool, append: bool, truncate: bool, create: bool, new: bool }
impl OpenOptions {
    pub fn new() -> Self { OpenOptions { read: false, write: false, append: false, truncate: false, create: false, new: false } }
    pub fn read(&mut self, x: bool) -> &mut Self { self.read = x; self }
    pub fn write(&mut self, x: bool) -> &mut Self { self.write = x; self }
    pub fn append(&mut self, x: bool) -> &mut Self { self.append = x; self }
    pub fn truncate(&mut self, x: bool) -> &mut Self { self.truncate = x; self }
    pub fn create(&mut self, x: bool) -> &mut Self { self.create = x; self }
    pub fn create_new(&mut self, x: bool) -> &mut Self { self.new = x; self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let p = p.as_ref();
        let i = match find(p) {
            Some(_) if self.new => return Err(io::ErrorKind::AlreadyExists.into()),
            Some(i) => { if self.truncate { DISK.0.borrow_mut()[i].1.clear(); } i }
            None => {
                let c = if self.create || self.new { Vec::new() } else { ::std::fs::read(p)? };
                let mut d = DISK.0.borrow_mut(); d.push((Some(name(p)), c)); d.len() - 1
            }
        };
        Ok(File { i, pos: 0, append: self.append })
    }
}
impl File {
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().write(true).create(true).truncate(true).open(p) }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().write(true).create_new(true).open(p) }
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().read(true).open(p) }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn sync_all(&self) -> io::Result<()> { Ok(()) }
    pub fn sync_data(&self) -> io::Result<()> { Ok(()) }
    pub fn set_len(&self, n: u64) -> io::Result<()> { DISK.0.borrow_mut()[self.i].1.resize(n as usize, 0); Ok(()) }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let f = &mut DISK.0.borrow_mut()[self.i].1;
        let at = if self.append { f.len() } else { self.pos };
        let room = LIMIT.0.get().saturating_sub(at);
        if room == 0 && !b.is_empty() { return Err(io::ErrorKind::FileTooLarge.into()); }
        let n = if b.len() < room { b.len() } else { room };
        if f.len() < at { f.resize(at, 0); }
        let k = if f.len() - at < n { f.len() - at } else { n };
        f[at..at + k].copy_from_slice(&b[..k]);
        f.extend_from_slice(&b[k..n]);
        self.pos = at + n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Write for &File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { File { i: self.i, pos: 0, append: true }.write(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Read for File {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        let d = DISK.0.borrow(); let f = &d[self.i].1;
        let n = o.len().min(f.len().saturating_sub(self.pos));
        o[..n].copy_from_slice(&f[self.pos..self.pos + n]); self.pos += n; Ok(n)
    }
}
impl Seek for File {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let n = DISK.0.borrow()[self.i].1.len() as i64;
        let p = match s { SeekFrom::Start(x) => x as i64, SeekFrom::End(x) => n + x, SeekFrom::Current(x) => self.pos as i64 + x };
        if p < 0 { return Err(io::ErrorKind::InvalidInput.into()); }
        self.pos = p as usize; Ok(p as u64)
    }
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { File::create(p)?.write_all(c.as_ref()) }
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> { match find(p.as_ref()) { Some(i) => Ok(DISK.0.borrow()[i].1.clone()), None => ::std::fs::read(p) } }
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> { match find(p.as_ref()) { Some(i) => String::from_utf8(DISK.0.borrow()[i].1.clone()).map_err(|_| io::ErrorKind::InvalidData.into()), None => ::std::fs::read_to_string(p) } }
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> { let i = find(p.as_ref()).ok_or_else(no)?; DISK.0.borrow_mut()[i].0 = None; Ok(()) }
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<()> {
    let i = find(p.as_ref()).ok_or_else(no)?;
    let old = find(q.as_ref());
    let mut d = DISK.0.borrow_mut();
    if let Some(j) = old { if j != i { d[j].0 = None; } }
    d[i].0 = Some(name(q.as_ref())); Ok(())
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<u64> { let c = read(p)?; write(q, &c)?; Ok(c.len() as u64) }
pub fn create_dir_all<P: AsRef<Path>>(_: P) -> io::Result<()> { Ok(()) }
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> { Ok(find(p.as_ref()).is_some()) }
/// what the file holds
pub fn last_written(p: &str) -> Option<Vec<u8>> { find(Path::new(p)).map(|i| DISK.0.borrow()[i].1.clone()) }
