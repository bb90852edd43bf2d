//! Stand-in for zip 0.5. The "archive" bytes are a simple text container written by the harness:
//! a sequence of entries  `<name-len> <data-len>\n<name bytes><data bytes>`, first line `STUBZIP <n>`.
//! `sanitized_name` follows zip 0.5.0: everything up to the first NUL, then only Normal components, '\\' counting as a separator.
use std::fmt;
use std::io::{self, Read, Seek};
use std::path::{Component, Path, PathBuf};
pub mod result {
    pub use super::{ZipError, ZipResult};
}
#[derive(Debug)]
pub enum ZipError {
    Io(io::Error),
    InvalidArchive(&'static str),
    FileNotFound,
}
pub type ZipResult<T> = Result<T, ZipError>;
impl fmt::Display for ZipError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for ZipError {}
pub fn build(entries: &[(&str, &[u8])]) -> Vec<u8> {
    let mut v = format!("STUBZIP {}\n", entries.len()).into_bytes();
    for (n, d) in entries {
        v.extend(format!("{} {}\n", n.len(), d.len()).into_bytes());
        v.extend(n.as_bytes());
        v.extend(*d);
    }
    v
}
pub struct ZipArchive<R> {
    entries: Vec<(String, Vec<u8>)>,
    _r: std::marker::PhantomData<R>,
}
pub struct ZipFile<'a> {
    name: &'a str,
    data: &'a [u8],
}
fn line<'a>(b: &mut &'a [u8]) -> Option<&'a str> {
    let i = b.iter().position(|c| *c == b'\n')?;
    let l = std::str::from_utf8(&b[..i]).ok()?;
    *b = &b[i + 1..];
    Some(l)
}
fn parse(mut b: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    let h = line(&mut b)?;
    let mut it = h.split(' ');
    if it.next() != Some("STUBZIP") {
        return None;
    }
    let n: usize = it.next()?.parse().ok()?;
    let mut out = vec![];
    for _ in 0..n {
        let l = line(&mut b)?;
        let mut it = l.split(' ');
        let nl: usize = it.next()?.parse().ok()?;
        let dl: usize = it.next()?.parse().ok()?;
        if b.len() < nl + dl {
            return None;
        }
        out.push((String::from_utf8(b[..nl].to_vec()).ok()?, b[nl..nl + dl].to_vec()));
        b = &b[nl + dl..];
    }
    Some(out)
}
impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut r: R) -> ZipResult<Self> {
        let mut v = vec![];
        r.read_to_end(&mut v).map_err(ZipError::Io)?;
        let entries = parse(&v).ok_or(ZipError::InvalidArchive("bad stub archive"))?;
        Ok(ZipArchive { entries, _r: std::marker::PhantomData })
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn by_index(&mut self, i: usize) -> ZipResult<ZipFile<'_>> {
        let e = self.entries.get(i).ok_or(ZipError::FileNotFound)?;
        Ok(ZipFile { name: &e.0, data: &e.1 })
    }
}
impl<'a> ZipFile<'a> {
    pub fn name(&self) -> &str {
        self.name
    }
    pub fn name_raw(&self) -> &[u8] {
        self.name.as_bytes()
    }
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn is_dir(&self) -> bool {
        self.name.ends_with('/') || self.name.ends_with('\\')
    }
    pub fn sanitized_name(&self) -> PathBuf {
        let no_null = match self.name.find('\0') {
            Some(i) => &self.name[..i],
            None => self.name,
        };
        // both separators are accepted in archives (as in zip 0.5)
        let name = no_null.replace('\\', "/");
        Path::new(&name)
            .components()
            .filter(|c| match *c {
                Component::Normal(..) => true,
                _ => false,
            })
            .fold(PathBuf::new(), |mut p, c| {
                p.push(c.as_os_str());
                p
            })
    }
}
impl<'a> Read for ZipFile<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.data.read(buf)
    }
}
