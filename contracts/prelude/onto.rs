pub mod onto {
// snips_nlu_ontology and snips_nlu_parsers types, as far as the code under contract uses them, and the
// interfaces (traits) of the entity parsers.  What a parser answers is an arbitrary relation `answers`.
use vstd::prelude::*;
use std::ops::Range;
use crate::base::*;
verus! {
pub type EntityName = String;
pub type SlotName = String;
pub type IntentName = String;
#[verifier::external_body]
pub struct BuiltinEntityKind { x: u8 }
impl Clone for BuiltinEntityKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BuiltinEntityKind { }
impl VxPlainEq for BuiltinEntityKind { }
impl VxEq<BuiltinEntityKind> for BuiltinEntityKind { open spec fn eqs(&self, o: &BuiltinEntityKind) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_(&self, o: &BuiltinEntityKind) -> (r: bool) { unimplemented!() } }
/// the built-in entity kind with this identifier, if there is one
pub uninterp spec fn kind_of(id: Seq<char>) -> Option<BuiltinEntityKind>;
pub uninterp spec fn kind_id(k: BuiltinEntityKind) -> Seq<char>;
impl BuiltinEntityKind {
    #[verifier::external_body]
    pub fn from_identifier(id: &str) -> (r: Result<BuiltinEntityKind>) ensures (match r { Ok(k) => Some(k), Err(_) => None }) == kind_of(id@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(id: &str) -> (r: Result<BuiltinEntityKind>) ensures (match r { Ok(k) => Some(k), Err(_) => None }) == kind_of(id@) { unimplemented!() }
    #[verifier::external_body]
    pub fn identifier(&self) -> (r: &'static str) ensures r@ == kind_id(*self) { unimplemented!() }
}
pub struct StringValue { pub value: String }
#[verifier::external_body]
pub struct OtherValue { x: u8 }
/// SlotValue: the variants other than Custom are opaque
pub enum SlotValue { Custom(StringValue), Other(OtherValue) }
pub struct BuiltinEntity { pub value: String, pub range: Range<usize>, pub entity: SlotValue, pub alternatives: Vec<SlotValue>, pub entity_kind: BuiltinEntityKind }
impl Clone for BuiltinEntity { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct CustomEntity { pub value: String, pub resolved_value: String, pub alternative_resolved_values: Vec<String>, pub range: Range<usize>, pub entity_identifier: String }
impl Clone for CustomEntity { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Slot { pub raw_value: String, pub value: SlotValue, pub alternatives: Vec<SlotValue>, pub range: Range<usize>, pub entity: String, pub slot_name: String, pub confidence_score: Option<f32> }
impl Clone for Slot { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct IntentClassifierResult { pub intent_name: Option<String>, pub confidence_score: f32 }
impl Clone for IntentClassifierResult { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct IntentParserAlternative { pub intent: IntentClassifierResult, pub slots: Vec<Slot> }
pub struct IntentParserResult { pub input: String, pub intent: IntentClassifierResult, pub slots: Vec<Slot>, pub alternatives: Vec<IntentParserAlternative> }
impl VxInto<StringValue> for String { open spec fn into_is(self, r: StringValue) -> bool { r.value == self } #[verifier::external_body] fn vx_into(self) -> (r: StringValue) { unimplemented!() } }

pub trait BuiltinEntityParser: Send + Sync {
    spec fn answers(&self, sentence: Seq<char>, kinds: Option<Seq<BuiltinEntityKind>>, alternatives: usize, r: Result<Vec<BuiltinEntity>>) -> bool;
    fn extract_entities(&self, sentence: &str, filter_entity_kinds: Option<&[BuiltinEntityKind]>, use_cache: bool, max_alternative_resolved_values: usize) -> (r: Result<Vec<BuiltinEntity>>)
        ensures self.answers(sentence@, (match filter_entity_kinds { Some(k) => Some(k@), None => None }), max_alternative_resolved_values, r);
}
pub trait CustomEntityParser: Send + Sync {
    spec fn answers(&self, sentence: Seq<char>, entities: Option<Seq<String>>, alternatives: usize, r: Result<Vec<CustomEntity>>) -> bool;
    fn extract_entities(&self, sentence: &str, filter_entity_kinds: Option<&[String]>, max_alternative_resolved_values: usize) -> (r: Result<Vec<CustomEntity>>)
        ensures self.answers(sentence@, (match filter_entity_kinds { Some(k) => Some(k@), None => None }), max_alternative_resolved_values, r);
}
}
}
