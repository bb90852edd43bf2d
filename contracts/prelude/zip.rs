pub mod zip {
// the zip crate, and the file system operations that unpacking needs
use vstd::prelude::*;
use crate::base::*;
use crate::fs::*;
verus! {
pub trait Read { }
pub trait Seek { }
/// an entry of an archive: the name it declares, its sanitised name, what it holds
pub struct Entry { pub name: Seq<char>, pub safe: Seq<char>, pub data: Seq<u8> }
pub uninterp spec fn entries_of<R>(r: R) -> Seq<Entry>;
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ZipArchive<R> { r: R }
#[verifier::external_body]
pub struct ZipFile { x: u8 }
impl<R> ZipArchive<R> {
    pub uninterp spec fn entries(&self) -> Seq<Entry>;
    #[verifier::external_body] pub fn new(r: R) -> (a: Result<ZipArchive<R>>) ensures a is Ok ==> a->Ok_0.entries() == entries_of(r) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (n: usize) ensures n == self.entries().len() { unimplemented!() }
    /// fails on a malformed entry, and past the end
    #[verifier::external_body] pub fn by_index(&mut self, i: usize) -> (f: Result<ZipFile>)
        ensures final(self).entries() == old(self).entries(), f is Ok ==> i < old(self).entries().len() && f->Ok_0.entry() == old(self).entries()[i as int]
    { unimplemented!() }
}
impl ZipFile {
    pub uninterp spec fn entry(&self) -> Entry;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.entry().name { unimplemented!() }
    #[verifier::external_body] pub fn sanitized_name(&self) -> (r: PathBuf) ensures r@ == self.entry().safe { unimplemented!() }
}
// ------------------------------------------------------------------ effects on the file system
/// the permission to create (or truncate) the file at a path; to create a directory and its parents
pub uninterp spec fn may_write(p: Seq<char>) -> bool;
pub uninterp spec fn may_mkdir(p: Seq<char>) -> bool;
/// the directory was seen, or created
pub uninterp spec fn dir_there(p: Seq<char>) -> bool;
/// the data was written to the file at a path
pub uninterp spec fn wrote(p: Seq<char>, data: Seq<u8>) -> bool;
pub uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
impl PathBuf {
    #[verifier::external_body] pub fn vx_parent(&self) -> (r: Option<&Path>) ensures (match r { Some(x) => Some(x@), None => None }) == parent_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_exists(&self) -> (r: bool) ensures r ==> dir_there(self@) { unimplemented!() }
    #[verifier::external_body] pub fn components(&self) -> (r: It<Component<'_>>) ensures r@.len() == components_of(self@).len(), forall|i: int| #![trigger r@[i]] #![trigger components_of(self@)[i]] 0 <= i < r@.len() ==> comp(r@[i]) == components_of(self@)[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<P: VxAsPath>(p: P) -> (r: Result<()>) requires may_mkdir(p.pv()) ensures r is Ok ==> dir_there(p.pv()) { unimplemented!() }
impl File {
    #[verifier::external_body]
    pub fn create<P: VxAsPath>(p: P) -> (r: Result<File>)
        requires may_write(p.pv()), parent_of(p.pv()) is Some ==> dir_there(parent_of(p.pv())->Some_0)
        ensures r is Ok ==> r->Ok_0.path() == p.pv()
    { unimplemented!() }
}
/// `std::io::copy`: all of the entry, or an error
#[verifier::external_body]
pub fn copy(f: &mut ZipFile, o: &mut File) -> (r: Result<u64>) ensures final(o).path() == old(o).path(), r is Ok ==> wrote(old(o).path(), old(f).entry().data) { unimplemented!() }
// ------------------------------------------------------------------ path components
#[verifier::external_body]
pub struct OsStr { x: u8 }
impl OsStr {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures (match r { Some(x) => Some(x@), None => None }) == self.text() { unimplemented!() }
}
pub enum Component<'a> { Prefix(u8), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
/// a component: its text, when it is the name of a directory or file
pub struct Comp { pub normal: bool, pub text: Option<Seq<char>> }
pub uninterp spec fn components_of(p: Seq<char>) -> Seq<Comp>;
pub uninterp spec fn other_text<'a>(c: Component<'a>) -> Option<Seq<char>>;
pub open spec fn comp<'a>(c: Component<'a>) -> Comp { match c { Component::Normal(s) => Comp { normal: true, text: s.text() }, _ => Comp { normal: false, text: other_text(c) } } }
impl<'a> Component<'a> {
    #[verifier::external_body] pub fn as_os_str(self) -> (r: &'a OsStr) ensures r.text() == comp(self).text { unimplemented!() }
}
}
}
