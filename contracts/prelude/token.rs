pub mod token {
// snips_nlu_utils::token and snips_nlu_utils::string, as far as the code under contract uses them
use vstd::prelude::*;
use std::ops::Range;
use crate::base::*;
verus! {
pub struct Token { pub value: String, pub range: Range<usize>, pub char_range: Range<usize>, pub normalized: String }
impl Clone for Token { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Token { #[verifier::external_body] pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> (r: Token) ensures r.value == value, r.range == range, r.char_range == char_range, r.normalized@ == normal(value@) { unimplemented!() }
    #[verifier::external_body] pub fn normalized_value(&self) -> (r: String) ensures r@ == self.normalized@ { unimplemented!() } }
pub uninterp spec fn normal(s: Seq<char>) -> Seq<char>;
/// `snips_nlu_utils::string::normalize`
#[verifier::external_body]
pub fn normalize(s: &str) -> (r: String) ensures r@ == normal(s@) { unimplemented!() }
/// tokens of a text: byte ranges on character boundaries, in order
pub open spec fn wf_tokens(text: Seq<char>, toks: Seq<Token>) -> bool {
    &&& forall|i: int| 0 <= i < toks.len() ==> {
        &&& (#[trigger] toks[i]).range.start <= toks[i].range.end
        &&& toks[i].char_range.start <= toks[i].char_range.end <= text.len()
        &&& char_boundary(text, toks[i].range.start as int) && char_boundary(text, toks[i].range.end as int)
        &&& toks[i].value@ == byte_slice(text, toks[i].range.start as int, toks[i].range.end as int)
    }
    &&& forall|i: int, j: int| 0 <= i < j < toks.len() ==> (#[trigger] toks[i]).range.end <= (#[trigger] toks[j]).range.start && toks[i].char_range.end <= toks[j].char_range.start
}
/// `snips_nlu_utils::language::Language`
#[derive(Clone, Copy, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum NluUtilsLanguage { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }
/// `snips_nlu_ontology::Language`
#[derive(Clone, Copy, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }
pub uninterp spec fn language_of(code: Seq<char>) -> Option<Language>;
impl Language { #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<Language>) ensures (match r { Ok(l) => Some(l), Err(_) => None }) == language_of(s@) { unimplemented!() } }
pub uninterp spec fn tokens_of(text: Seq<char>, l: NluUtilsLanguage) -> Seq<Token>;
/// the tokens are non-empty and hold the text of their range
pub open spec fn faithful(text: Seq<char>, toks: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).char_range.start < toks[i].char_range.end && toks[i].value@ == text.subrange(toks[i].char_range.start as int, toks[i].char_range.end as int)
}
#[verifier::external_body]
pub fn tokenize(text: &str, l: NluUtilsLanguage) -> (r: Vec<Token>)
    ensures r@ == tokens_of(text@, l), wf_tokens(text@, r@), faithful(text@, r@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).normalized@ == normal(r@[i].value@)
{ unimplemented!() }
pub uninterp spec fn light_tokens(text: Seq<char>, l: NluUtilsLanguage) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn tokenize_light(text: &str, l: NluUtilsLanguage) -> (r: Vec<String>) ensures views(r@) == light_tokens(text@, l), r@.len() <= text@.len() { unimplemented!() }
#[verifier::external_body]
pub fn suffix_from_char_index(s: String, i: usize) -> (r: String)
    ensures r@ == (if i <= s@.len() { s@.skip(i as int) } else { Seq::empty() })
{ unimplemented!() }
#[verifier::external_body]
pub fn substring_with_char_range(s: String, r: &Range<usize>) -> (x: String)
    ensures r.start <= r.end <= s@.len() ==> x@ == s@.subrange(r.start as int, r.end as int), x@.len() <= s@.len()
{ unimplemented!() }
/// number of characters that start before byte b
pub uninterp spec fn chars_before(s: Seq<char>, b: int) -> int;
pub broadcast axiom fn ax_chars_before(s: Seq<char>, b: int) ensures 0 <= #[trigger] chars_before(s, b) <= s.len();
pub broadcast axiom fn ax_chars_mono(s: Seq<char>, a: int, b: int) ensures a <= b ==> #[trigger] chars_before(s, a) <= #[trigger] chars_before(s, b);
/// `snips_nlu_utils::string::convert_to_char_range`
#[verifier::external_body]
pub fn convert_to_char_range(s: &str, r: &Range<usize>) -> (x: Range<usize>) ensures x.start == chars_before(s@, r.start as int), x.end == chars_before(s@, r.end as int) { unimplemented!() }
pub broadcast group token_axioms { ax_chars_before, ax_chars_mono }
pub open spec fn overlap(a: Range<usize>, b: Range<usize>) -> bool { a.start < b.end && a.end > b.start }
#[verifier::external_body]
pub fn ranges_overlap(a: &Range<usize>, b: &Range<usize>) -> (x: bool) ensures x == overlap(*a, *b) { unimplemented!() }
}
}
