pub mod io {
// std::io readers, the csv crate, 32-bit string hashes
use vstd::prelude::*;
use crate::base::*;
verus! {
pub trait Read { }
/// the lines a reader yields (an error: the stream fails or is not UTF-8 there)
pub uninterp spec fn lines_of<R>(r: R) -> Seq<Result<String>>;
pub struct BufReader<R> { pub r: R }
impl<R> BufReader<R> {
    #[verifier::external_body] pub fn new(r: R) -> (b: BufReader<R>) ensures b.r == r { unimplemented!() }
    #[verifier::external_body] pub fn vx_lines(self) -> (l: It<Result<String>>) ensures l@ == lines_of(self.r) { unimplemented!() }
}
impl Read for crate::fs::File { }
/// how a csv file is to be read
pub struct Csv { pub delimiter: u8, pub quoting: bool, pub flexible: bool, pub has_headers: bool }
/// the records of a csv file (an error: a malformed record)
pub uninterp spec fn records_of<R>(r: R, c: Csv) -> Seq<Result<StringRecord>>;
#[verifier::external_body]
pub struct StringRecord { x: u8 }
impl StringRecord {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn vx_index(&self, i: usize) -> (r: &str) requires i < self@.len() ensures r@ == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&str>) ensures match r { Some(x) => i < self@.len() && x@ == self@[i as int], None => i >= self@.len() } { unimplemented!() }
}
impl<'a> VxIter<&'a str> for &'a StringRecord { open spec fn elems(self) -> Seq<&'a str> { Seq::new(self@.len(), |i: int| mk_str(self@[i])) } #[verifier::external_body] fn vx_iter(self) -> It<&'a str> { unimplemented!() } }
pub struct ReaderBuilder { pub c: Csv }
pub struct Reader<R> { pub r: R, pub c: Csv }
impl ReaderBuilder {
    #[verifier::external_body] pub fn new() -> (b: ReaderBuilder) ensures b.c == (Csv { delimiter: 44u8, quoting: true, flexible: false, has_headers: true }) { unimplemented!() }
    #[verifier::external_body] pub fn delimiter(self, d: u8) -> (b: ReaderBuilder) ensures b.c == (Csv { delimiter: d, ..self.c }) { unimplemented!() }
    #[verifier::external_body] pub fn quoting(self, y: bool) -> (b: ReaderBuilder) ensures b.c == (Csv { quoting: y, ..self.c }) { unimplemented!() }
    #[verifier::external_body] pub fn flexible(self, y: bool) -> (b: ReaderBuilder) ensures b.c == (Csv { flexible: y, ..self.c }) { unimplemented!() }
    #[verifier::external_body] pub fn has_headers(self, y: bool) -> (b: ReaderBuilder) ensures b.c == (Csv { has_headers: y, ..self.c }) { unimplemented!() }
    #[verifier::external_body] pub fn from_reader<R>(self, r: R) -> (x: Reader<R>) ensures x.r == r, x.c == self.c { unimplemented!() }
}
impl<R> Reader<R> {
    /// records are never empty; without `flexible` all have as many fields as the first
    #[verifier::external_body] pub fn records(&mut self) -> (l: It<Result<StringRecord>>)
        ensures l@ == records_of(old(self).r, old(self).c), forall|i: int| 0 <= i < l@.len() && (#[trigger] l@[i]) is Ok ==> l@[i]->Ok_0@.len() > 0
    { unimplemented!() }
}
pub enum Either<L, R> { Left(L), Right(R) }
pub broadcast axiom fn ax_str_mk(s: Seq<char>) ensures (#[trigger] mk_str(s))@ == s;
pub broadcast group io_axioms { ax_str_mk }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
pub assume_specification [<u16 as core::str::FromStr>::from_str] (s: &str) -> (r: core::result::Result<u16, core::num::ParseIntError>);
/// `snips_nlu_utils::string::hash_str_to_i32`
pub uninterp spec fn hash_of(s: Seq<char>) -> i32;
#[verifier::external_body]
pub fn hash_str_to_i32(s: &str) -> (r: i32) ensures r == hash_of(s@) { unimplemented!() }
}
}
