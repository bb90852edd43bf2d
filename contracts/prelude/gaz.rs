pub mod gaz {
// snips_nlu_parsers' gazetteer parser and metadata, and the file system operations of injection
use vstd::prelude::*;
use crate::base::*;
use crate::fs::*;
verus! {
pub struct GazetteerEntityValue { pub raw_value: String, pub resolved_value: String }
impl Clone for GazetteerEntityValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxPlainEq for GazetteerEntityValue { }
pub struct EntityParserMetadata { pub entity_identifier: String, pub entity_parser: String }
pub struct GazetteerParserMetadata { pub parsers_metadata: Vec<EntityParserMetadata> }
pub struct BuiltinParserMetadata { pub gazetteer_parser: Option<String> }
/// what a gazetteer parser holds
#[verifier::external_body]
pub struct Holdings { x: u8 }
/// the parser in a directory may hold this
pub uninterp spec fn parser_in(dir: Seq<char>, h: Holdings) -> bool;
/// what a parser holds after injecting values, before (or after) its own, with (or without) earlier injections
pub uninterp spec fn injected(h: Holdings, values: Seq<GazetteerEntityValue>, prepend: bool, from_vanilla: bool) -> Holdings;
/// the permission to delete a parser, and to write one
pub uninterp spec fn may_remove(dir: Seq<char>) -> bool;
pub uninterp spec fn may_dump(dir: Seq<char>, h: Holdings) -> bool;
/// the parser was written
pub uninterp spec fn dumped(dir: Seq<char>, h: Holdings) -> bool;
#[verifier::external_body]
pub struct GazetteerEntityParser { x: u8 }
impl GazetteerEntityParser {
    pub uninterp spec fn holds(&self) -> Holdings;
    #[verifier::external_body] pub fn from_folder<P: VxAsPath>(p: P) -> (r: Result<GazetteerEntityParser>) ensures r is Ok ==> parser_in(p.pv(), r->Ok_0.holds()) { unimplemented!() }
    #[verifier::external_body] pub fn inject_new_values(&mut self, values: Vec<GazetteerEntityValue>, prepend: bool, from_vanilla: bool) -> (r: Result<()>) ensures r is Ok ==> final(self).holds() == injected(old(self).holds(), values@, prepend, from_vanilla) { unimplemented!() }
    #[verifier::external_body] pub fn dump<P: VxAsPath>(&self, p: P) -> (r: Result<()>) requires may_dump(p.pv(), self.holds()) ensures r is Ok ==> dumped(p.pv(), self.holds()) { unimplemented!() }
}
#[verifier::external_body]
pub fn remove_dir_all<P: VxAsPath>(p: P) -> (r: Result<()>) requires may_remove(p.pv()) { unimplemented!() }
/// the identifiers of built-in gazetteer and grammar entities
pub uninterp spec fn gazetteer_kind(id: Seq<char>) -> bool;
pub uninterp spec fn grammar_kind(id: Seq<char>) -> bool;
#[verifier::external_body]
pub struct BuiltinGazetteerEntityKind { x: u8 }
#[verifier::external_body]
pub struct GrammarEntityKind { x: u8 }
impl BuiltinGazetteerEntityKind { #[verifier::external_body] pub fn from_identifier(id: &str) -> (r: Result<BuiltinGazetteerEntityKind>) ensures r is Ok <==> gazetteer_kind(id@) { unimplemented!() } }
impl GrammarEntityKind { #[verifier::external_body] pub fn from_identifier(id: &str) -> (r: Result<GrammarEntityKind>) ensures r is Ok <==> grammar_kind(id@) { unimplemented!() } }
}
}
