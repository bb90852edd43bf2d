//! Stand-in for crfsuite-rs: a tagger whose behaviour is a table/closure set by the harness.
use std::cell::Cell;
use std::fmt;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}

thread_local! {
    /// raw (encoded) tags the next `tag` calls return, indexed by position modulo length
    pub static PRESET: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
    pub static SEEN: std::cell::RefCell<Vec<Vec<(String, String)>>> = std::cell::RefCell::new(vec![]);
    pub static PROBED: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
    pub static PROBA: Cell<f64> = Cell::new(0.5);
}

#[derive(Debug, Default)]
pub struct Tagger {
    len: Cell<usize>,
    pub labels: Vec<String>,
    /// the lines of the model file: the tags to answer when none are preset
    pub lines: Vec<String>,
}

impl Tagger {
    pub fn create_from_file<P: AsRef<std::path::Path>>(p: P) -> Result<Self, Error> {
        let text = std::fs::read_to_string(p).map_err(|e| Error(e.to_string()))?;
        Ok(Tagger { lines: text.lines().map(|l| l.to_string()).collect(), ..Tagger::default() })
    }
    pub fn tag(&self, xseq: &[Vec<(String, String)>]) -> Result<Vec<String>, Error> {
        self.set(xseq)?;
        SEEN.with(|s| *s.borrow_mut() = xseq.to_vec());
        PRESET.with(|p| {
            let p = p.borrow();
            if p.is_empty() && !self.lines.is_empty() {
                return Ok((0..xseq.len()).map(|i| self.lines[i % self.lines.len()].clone()).collect());
            }
            if p.is_empty() {
                return Err(Error("no preset tags".to_string()));
            }
            Ok((0..xseq.len()).map(|i| p[i % p.len()].clone()).collect())
        })
    }
    pub fn set(&self, xseq: &[Vec<(String, String)>]) -> Result<(), Error> {
        self.len.set(xseq.len());
        Ok(())
    }
    pub fn probability(&self, tags: &[String]) -> Result<f64, Error> {
        PROBED.with(|p| *p.borrow_mut() = tags.to_vec());
        Ok(PROBA.with(|p| p.get()))
    }
    pub fn labels(&self) -> Result<Vec<String>, Error> {
        Ok(self.labels.clone())
    }
}
