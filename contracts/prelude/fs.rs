pub mod fs {
// std::path, std::fs::File, serde_json::from_reader
use vstd::prelude::*;
use crate::base::*;
verus! {
/// Path and PathBuf
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
pub uninterp spec fn path_join(p: Seq<char>, q: Seq<char>) -> Seq<char>;
pub uninterp spec fn path_with_ext(p: Seq<char>, e: Seq<char>) -> Seq<char>;
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_join<P: VxAsPath>(&self, p: P) -> (r: PathBuf) ensures r@ == path_join(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension(&self, e: &str) -> (r: PathBuf) ensures r@ == path_with_ext(self@, e@) { unimplemented!() }
}
pub trait VxAsPath { spec fn pv(&self) -> Seq<char>; fn vx_path_ref(&self) -> (r: &Path) ensures r@ == self.pv(); }
impl VxAsPath for PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_path_ref(&self) -> (r: &Path) { unimplemented!() } }
impl VxAsPath for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_path_ref(&self) -> (r: &Path) { unimplemented!() } }
impl VxAsPath for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_path_ref(&self) -> (r: &Path) { unimplemented!() } }
impl<'a, T: VxAsPath + ?Sized> VxAsPath for &'a T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } #[verifier::external_body] fn vx_path_ref(&self) -> (r: &Path) { unimplemented!() } }
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    /// the file a handle was opened on
    pub uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn open<P: VxAsPath>(p: P) -> (r: Result<File>) ensures r is Ok ==> r->Ok_0.path() == p.pv(), r is Err ==> unreadable(p.pv()) { unimplemented!() }
}
/// the file cannot be opened
pub uninterp spec fn unreadable(path: Seq<char>) -> bool;
/// reading the JSON file at a path as a T may have this outcome
pub uninterp spec fn json_of<T>(path: Seq<char>, r: Result<T>) -> bool;
#[verifier::external_body]
pub fn from_reader<T>(f: File) -> (r: Result<T>) ensures json_of(f.path(), r) { unimplemented!() }
}
}
