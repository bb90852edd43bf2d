pub mod regex {
// regex: which groups match where is an arbitrary function of pattern and text
use vstd::prelude::*;
use std::ops::Range;
use crate::base::*;
verus! {
#[verifier::external_body]
pub struct Regex { x: u8 }
/// group names, the whole match first
pub uninterp spec fn names_of(r: Regex) -> Seq<Option<Seq<char>>>;
/// all matches: for each group the byte range it matched
pub uninterp spec fn matches_of(r: Regex, text: Seq<char>) -> Seq<Seq<Option<Range<usize>>>>;
/// what compiling a pattern gives
pub uninterp spec fn compiled(pattern: Seq<char>, case_insensitive: bool) -> Result<Regex>;
pub struct RegexBuilder { pub pattern: String, pub ci: bool }
impl RegexBuilder {
    #[verifier::external_body] pub fn new(p: &str) -> (r: RegexBuilder) ensures r.pattern@ == p@, !r.ci { unimplemented!() }
    #[verifier::external_body] pub fn case_insensitive(self, y: bool) -> (r: RegexBuilder) ensures r.pattern == self.pattern, r.ci == y { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Result<Regex>) ensures r == compiled(self.pattern@, self.ci) { unimplemented!() }
}
pub struct Match { pub b: Range<usize> }
impl Match {
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r == self.b.start { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures r == self.b.end { unimplemented!() }
}
pub struct Captures { pub g: Vec<Option<Match>> }
pub open spec fn match_of(r: Option<Range<usize>>) -> Option<Match> { match r { Some(b) => Some(Match { b }), None => None } }
pub open spec fn groups(c: Captures) -> Seq<Option<Range<usize>>> { Seq::new(c.g@.len(), |i: int| match c.g@[i] { Some(m) => Some(m.b), None => None }) }
impl Captures { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.g@.len() { unimplemented!() } }
impl<'a> VxIter<Option<Match>> for &'a Captures { open spec fn elems(self) -> Seq<Option<Match>> { self.g@ } #[verifier::external_body] fn vx_iter(self) -> It<Option<Match>> { unimplemented!() } }
/// a group matches a piece of the text
pub open spec fn proper(text: Seq<char>, g: Seq<Option<Range<usize>>>) -> bool {
    forall|i: int| 0 <= i < g.len() && (#[trigger] g[i]) is Some ==> { let b = g[i]->Some_0; b.start <= b.end <= byte_len(text) && char_boundary(text, b.start as int) && char_boundary(text, b.end as int) }
}
pub open spec fn is_names(s: Seq<Option<&str>>, n: Seq<Option<Seq<char>>>) -> bool { s.len() == n.len() && forall|i: int| 0 <= i < n.len() ==> (match #[trigger] s[i] { Some(x) => Some(x@), None => None }) == n[i] }
impl Regex {
    #[verifier::external_body]
    pub fn is_match(&self, text: &str) -> (r: bool) ensures r == (matches_of(*self, text@).len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn captures_iter(&self, text: &str) -> (r: It<Captures>)
        ensures r@.len() == matches_of(*self, text@).len(), names_of(*self).len() > 0,
            forall|i: int| 0 <= i < r@.len() ==> groups(#[trigger] r@[i]) == matches_of(*self, text@)[i] && proper(text@, groups(r@[i])) && r@[i].g@.len() == names_of(*self).len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capture_names(&self) -> (r: It<Option<&str>>) ensures is_names(r@, names_of(*self)) { unimplemented!() }
}
}
}
