pub mod crfsuite {
// crfsuite::Tagger, base64, UTF-8, and a lock that may be poisoned
use vstd::prelude::*;
use crate::base::*;
use crate::fs::*;
verus! {
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64_bytes(s: Seq<char>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_utf8(s: Seq<char>) ensures #[trigger] utf8_text(utf8(s)) == Some(s);
pub broadcast axiom fn ax_b64(b: Seq<u8>) ensures #[trigger] b64_bytes(b64(b)) == Some(b);
#[verifier::external_body]
pub fn encode(s: &str) -> (r: String) ensures r@ == b64(utf8(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn decode(s: &str) -> (r: Result<Vec<u8>>) ensures (match r { Ok(v) => Some(v@), Err(_) => None }) == b64_bytes(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String>) ensures (match r { Ok(v) => Some(v@), Err(_) => None }) == utf8_text(b@) { unimplemented!() }
pub type Features = Seq<Vec<(String, String)>>;
#[verifier::external_body]
pub struct CRFSuiteTagger { x: u8 }
impl CRFSuiteTagger {
    /// the features of the sequence under consideration, and what the model answers
    pub uninterp spec fn items(&self) -> Features;
    pub uninterp spec fn model(&self) -> int;
    #[verifier::external_body]
    pub fn create_from_file<P: VxAsPath>(p: &P) -> (r: Result<Self>) ensures r is Ok ==> crf_file(p.pv(), r->Ok_0.model()) { unimplemented!() }
    #[verifier::external_body]
    pub fn tag(&mut self, f: &Vec<Vec<(String, String)>>) -> (r: Result<Vec<String>>) ensures final(self).model() == old(self).model(), tagged(old(self).model(), f@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn labels(&mut self) -> (r: Result<Vec<String>>) ensures final(self).model() == old(self).model(), final(self).items() == old(self).items(), labels_of(old(self).model(), r), r is Ok ==> r->Ok_0@.len() > 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, f: &Vec<Vec<(String, String)>>) -> (r: Result<()>) ensures final(self).model() == old(self).model(), r is Ok ==> final(self).items() == f@ { unimplemented!() }
    #[verifier::external_body]
    pub fn probability(&mut self, tags: &Vec<String>) -> (r: Result<f64>) ensures probability_of(old(self).model(), old(self).items(), tags@, r) { unimplemented!() }
}
/// the model in a file
pub uninterp spec fn crf_file(path: Seq<char>, m: int) -> bool;
pub uninterp spec fn tagged(m: int, f: Features, r: Result<Vec<String>>) -> bool;
pub uninterp spec fn labels_of(m: int, r: Result<Vec<String>>) -> bool;
pub uninterp spec fn probability_of(m: int, f: Features, tags: Seq<String>, r: Result<f64>) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { x: std::marker::PhantomData<T> }
impl Mutex<CRFSuiteTagger> {
    pub uninterp spec fn model(&self) -> int;
    #[verifier::external_body]
    pub fn vx_new(t: CRFSuiteTagger, i: Ghost<bool>) -> (r: Self) ensures r.model() == t.model() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_lock_res<'a>(&'a self) -> (r: Result<&'a mut CRFSuiteTagger>) ensures r is Ok ==> r->Ok_0.model() == self.model() { unimplemented!() }
}
pub broadcast group crfsuite_axioms { ax_utf8, ax_b64 }
}
}
