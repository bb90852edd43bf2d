//! Stand-in for the parts of csv 1.0 the crate uses (no quoting, header-less, optional flexibility).
use std::fmt;
use std::io::Read;
use std::ops::Index;
#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    Utf8,
    UnequalLengths { expected: usize, len: usize },
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct StringRecord(Vec<String>);
impl StringRecord {
    pub fn iter(&self) -> impl Iterator<Item = &str> {
        self.0.iter().map(|s| &**s)
    }
    pub fn get(&self, i: usize) -> Option<&str> {
        self.0.get(i).map(|s| &**s)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl Index<usize> for StringRecord {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        &self.0[i]
    }
}
pub struct ReaderBuilder {
    delim: u8,
    quoting: bool,
    flexible: bool,
    headers: bool,
}
impl ReaderBuilder {
    pub fn new() -> Self {
        ReaderBuilder { delim: b',', quoting: true, flexible: false, headers: true }
    }
    pub fn delimiter(&mut self, d: u8) -> &mut Self {
        self.delim = d;
        self
    }
    pub fn quoting(&mut self, q: bool) -> &mut Self {
        self.quoting = q;
        self
    }
    pub fn flexible(&mut self, q: bool) -> &mut Self {
        self.flexible = q;
        self
    }
    pub fn has_headers(&mut self, q: bool) -> &mut Self {
        self.headers = q;
        self
    }
    pub fn from_reader<R: Read>(&self, mut r: R) -> Reader {
        let mut v = vec![];
        let err = r.read_to_end(&mut v).err();
        let mut recs: Vec<Result<StringRecord, Error>> = vec![];
        let mut expected = None;
        let mut first = true;
        for line in v.split(|b| *b == b'\n' || *b == b'\r') {
            if line.is_empty() {
                continue;
            }
            let fields: Vec<Vec<u8>> = if self.quoting && line.contains(&b'"') {
                split_quoted(line, self.delim)
            } else {
                line.split(|b| *b == self.delim).map(|f| f.to_vec()).collect()
            };
            let fields: Result<Vec<String>, _> =
                fields.into_iter().map(String::from_utf8).collect();
            let fields = match fields {
                Ok(f) => f,
                Err(_) => {
                    recs.push(Err(Error::Utf8));
                    continue;
                }
            };
            let exp = *expected.get_or_insert(fields.len());
            if !self.flexible && exp != fields.len() {
                recs.push(Err(Error::UnequalLengths { expected: exp, len: fields.len() }));
                continue;
            }
            if first && self.headers {
                first = false;
                continue;
            }
            first = false;
            recs.push(Ok(StringRecord(fields)));
        }
        if let Some(e) = err {
            recs.push(Err(Error::Io(e)));
        }
        Reader { recs }
    }
}
fn split_quoted(line: &[u8], d: u8) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut inq = false;
    for &b in line {
        if b == b'"' {
            inq = !inq;
        } else if b == d && !inq {
            out.push(vec![]);
        } else {
            out.last_mut().unwrap().push(b);
        }
    }
    out
}
pub struct Reader {
    recs: Vec<Result<StringRecord, Error>>,
}
impl Reader {
    pub fn records(&mut self) -> std::vec::IntoIter<Result<StringRecord, Error>> {
        std::mem::replace(&mut self.recs, vec![]).into_iter()
    }
}
