#include onto
#item slot_utils.rs struct InternalSlot clone
#item intent_parser/mod.rs struct InternalParsingResult clone
#raw
spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
spec fn wl_of(w: Option<&[&str]>) -> Option<Seq<Seq<char>>> { match w { Some(x) => Some(strs(x@)), None => None } }
/// the interfaces of the two processing units: what they answer is an arbitrary relation
trait IntentClassifier: Send + Sync {
    spec fn best(&self, input: Seq<char>, whitelist: Option<Seq<Seq<char>>>, r: Result<IntentClassifierResult>) -> bool;
    spec fn ranks(&self, input: Seq<char>, r: Result<Vec<IntentClassifierResult>>) -> bool;
    fn get_intent(&self, input: &str, intents_whitelist: Option<&[&str]>) -> (r: Result<IntentClassifierResult>) ensures self.best(input@, wl_of(intents_whitelist), r);
    fn get_intents(&self, input: &str) -> (r: Result<Vec<IntentClassifierResult>>) ensures self.ranks(input@, r);
}
trait SlotFiller: Send + Sync {
    spec fn fills(&self, input: Seq<char>, r: Result<Vec<InternalSlot>>) -> bool;
    fn get_slots(&self, text: &str) -> (r: Result<Vec<InternalSlot>>) ensures self.fills(text@, r);
}
#item intent_parser/probabilistic_intent_parser.rs struct ProbabilisticIntentParser
#raw
/// the slot filler of exactly that intent; an intent without slot filler is an error
spec fn filled(p: ProbabilisticIntentParser, input: Seq<char>, intent: Seq<char>, r: Result<Vec<InternalSlot>>) -> bool {
    match map_get(p.slot_fillers@, mk_string(intent)) { None => r is Err, Some(f) => f.fills(input, r) }
}
/// the outcome carries the classifier's intent unchanged together with the slots
spec fn outcome(i: IntentClassifierResult, s: Result<Vec<InternalSlot>>, r: Result<InternalParsingResult>) -> bool {
    match s { Err(_) => r is Err, Ok(v) => r is Ok && r->Ok_0.intent == i && r->Ok_0.slots == v }
}
/// the slots come from the slot filler of exactly that intent; none without intent; no slot filler is an error
spec fn with_slots(p: ProbabilisticIntentParser, input: Seq<char>, i: IntentClassifierResult, r: Result<InternalParsingResult>) -> bool {
    match i.intent_name {
        None => r is Ok && r->Ok_0.intent == i && r->Ok_0.slots@.len() == 0,
        Some(n) => if !p.slot_fillers@.contains_key(n) { r is Err } else { exists|s: Result<Vec<InternalSlot>>| #[trigger] p.slot_fillers@[n].fills(input, s) && outcome(i, s, r) },
    }
}
spec fn parsed(p: ProbabilisticIntentParser, input: Seq<char>, w: Option<Seq<Seq<char>>>, r: Result<InternalParsingResult>) -> bool {
    exists|c: Result<IntentClassifierResult>| #[trigger] p.intent_classifier.best(input, w, c) && match c {
        Err(_) => r is Err,
        Ok(i) => with_slots(p, input, i, r),
    }
}
#fn intent_parser/probabilistic_intent_parser.rs ProbabilisticIntentParser/IntentParser::parse
#ret r
#spec
ensures parsed(*self, input@, wl_of(intents_whitelist), r)
#fn intent_parser/probabilistic_intent_parser.rs ProbabilisticIntentParser/IntentParser::get_intents
#ret r
#spec
ensures self.intent_classifier.ranks(input@, r)
#fn intent_parser/probabilistic_intent_parser.rs ProbabilisticIntentParser/IntentParser::get_slots rename=and_then
#ret r
#spec
ensures filled(*self, input@, intent@, r)
#closure 1 |slot_filler: &Box<dyn SlotFiller>| -> (x: Result<Vec<InternalSlot>>)
ensures slot_filler.fills(input@, x)
